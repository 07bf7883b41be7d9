// Replaces the transport over MPI ports by the same in-memory transport as the one over sockets.
#pragma once
#include "com/SocketCommunication.hpp"
namespace precice::com {
class MPIPortsCommunication : public SocketCommunication {
public:
  explicit MPIPortsCommunication(std::string addressDirectory = ".")
      : SocketCommunication(addressDirectory) {}
};
} // namespace precice::com
