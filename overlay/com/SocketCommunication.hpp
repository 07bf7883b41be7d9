// Overlay used by the symbolic build only: the TCP transport is replaced by in-memory byte streams between
// the simulated processes of one world (see world/world.cpp).  Interface as in the project's header.
#pragma once
#include <map>
#include <memory>
#include <set>
#include <stddef.h>
#include <string>
#include <thread>

#include "com/Communication.hpp"
#include "com/SharedPointer.hpp"
#include "logging/Logger.hpp"
#include "precice/impl/Types.hpp"
#include "utils/networking.hpp"

namespace world {
struct Stream;
struct Endpoint {
  std::shared_ptr<Stream> in, out;
};
} // namespace world

namespace precice::com {
class SocketCommunication : public Communication {
public:
  SocketCommunication(unsigned short portNumber       = 0,
                      bool           reuseAddress     = false,
                      std::string    networkName      = "lo",
                      std::string    addressDirectory = ".");
  explicit SocketCommunication(std::string const &addressDirectory);
  ~SocketCommunication() override;
  size_t getRemoteCommunicatorSize() override;
  void   acceptConnection(std::string const &acceptorName, std::string const &requesterName, std::string const &tag, int acceptorRank, int rankOffset = 0) override;
  void   acceptConnectionAsServer(std::string const &acceptorName, std::string const &requesterName, std::string const &tag, int acceptorRank, int requesterCommunicatorSize) override;
  void   requestConnection(std::string const &acceptorName, std::string const &requesterName, std::string const &tag, int requesterRank, int requesterCommunicatorSize) override;
  void   requestConnectionAsClient(std::string const &acceptorName, std::string const &requesterName, std::string const &tag, std::set<int> const &acceptorRanks, int requesterRank) override;
  void   closeConnection() override;
  void   send(std::string const &itemToSend, Rank rankReceiver) override;
  void   send(precice::span<const int> itemsToSend, Rank rankReceiver) override;
  PtrRequest aSend(precice::span<const int> itemsToSend, Rank rankReceiver) override;
  void       send(precice::span<const double> itemsToSend, Rank rankReceiver) override;
  PtrRequest aSend(precice::span<const double> itemsToSend, Rank rankReceiver) override;
  void       send(double itemToSend, Rank rankReceiver) override;
  PtrRequest aSend(const double &itemToSend, Rank rankReceiver) override;
  void       send(int itemToSend, Rank rankReceiver) override;
  PtrRequest aSend(const int &itemToSend, Rank rankReceiver) override;
  void       send(bool itemToSend, Rank rankReceiver) override;
  PtrRequest aSend(const bool &itemToSend, Rank rankReceiver) override;
  void       receive(std::string &itemToReceive, Rank rankSender) override;
  void       receive(precice::span<int> itemsToReceive, Rank rankSender) override;
  void       receive(precice::span<double> itemsToReceive, Rank rankSender) override;
  PtrRequest aReceive(precice::span<double> itemsToReceive, int rankSender) override;
  void       receive(double &itemToReceive, Rank rankSender) override;
  PtrRequest aReceive(double &itemToReceive, Rank rankSender) override;
  void       receive(int &itemToReceive, Rank rankSender) override;
  PtrRequest aReceive(int &itemToReceive, Rank rankSender) override;
  void       receive(bool &itemToReceive, Rank rankSender) override;
  PtrRequest aReceive(bool &itemToReceive, Rank rankSender) override;
  void       prepareEstablishment(std::string const &acceptorName, std::string const &requesterName) override;
  void       cleanupEstablishment(std::string const &acceptorName, std::string const &requesterName) override;

private:
  std::map<int, world::Endpoint> _peers;
  void       put(const void *p, size_t n, Rank receiver);
  void       get(void *p, size_t n, Rank sender);
  PtrRequest aput(const void *p, size_t n, Rank receiver);
  PtrRequest aget(void *p, size_t n, Rank sender);
  world::Endpoint &peer(Rank r);
};
} // namespace precice::com
