// Shared pieces of the world-level harnesses.
#pragma once
#include "../engine/sym.h"
#include "../world/world.hpp"
#include "precice/precice.hpp"
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace h {
using precice::Participant;
using precice::VertexID;

// library calls that have to be rejected: true if an Error was raised
template <typename F>
bool throws(F f)
{
  try {
    f();
  } catch (const precice::Error &) {
    return true;
  }
  return false;
}

inline std::string num(double x)
{
  char b[40];
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}

// Two participants: A provides mesh MA, B receives it with api-access.  DA: A -> B, DB: B -> A (both live on MA).
struct Two {
  int         dims      = 2;
  std::string dataAttr  = "";             // attributes of both data tags, e.g. waveform-degree="1"
  std::string kind      = "scalar";
  std::string scheme    = "serial-explicit";
  std::string first = "A", second = "B";
  std::string time      = R"(<max-time value="2"/><time-window-size value="1"/>)";
  std::string exA = "", exB = "";         // extra attributes of the exchange tags
  std::string extra     = "";             // convergence measures, accelerations, ...
  std::string extraA = "", extraB = "";   // inside the participant tags
  std::string extraMesh = "";
  std::string pre       = "";
  std::string rootAttr  = "";
  bool        sendA = true, sendB = true;
  bool        own = false;                // each participant provides the mesh of the data it writes: MA with DA, MB with DB
  int         mapBy = -1;                 // this participant maps between its own mesh and the one its partner provides
  bool        conserve = false;
  std::string xml() const
  {
    std::string s = "<?xml version=\"1.0\"?>\n<precice-configuration " + rootAttr + "><profiling mode=\"off\"/>" + pre;
    if (sendA)
      s += "<data:" + kind + " name=\"DA\" " + dataAttr + "/>";
    if (sendB)
      s += "<data:" + kind + " name=\"DB\" " + dataAttr + "/>";
    if (own)
      return s + xmlOwn();
    if (mapBy >= 0)
      return s + xmlMapped();
    s += "<mesh name=\"MA\" dimensions=\"" + std::to_string(dims) + "\">";
    if (sendA)
      s += "<use-data name=\"DA\"/>";
    if (sendB)
      s += "<use-data name=\"DB\"/>";
    s += "</mesh>" + extraMesh;
    s += "<participant name=\"A\"><provide-mesh name=\"MA\"/>";
    if (sendA)
      s += "<write-data name=\"DA\" mesh=\"MA\"/>";
    if (sendB)
      s += "<read-data name=\"DB\" mesh=\"MA\"/>";
    s += extraA + "</participant>";
    s += "<participant name=\"B\"><receive-mesh name=\"MA\" from=\"A\" api-access=\"true\"/>";
    if (sendA)
      s += "<read-data name=\"DA\" mesh=\"MA\"/>";
    if (sendB)
      s += "<write-data name=\"DB\" mesh=\"MA\"/>";
    s += extraB + "</participant><m2n:sockets acceptor=\"A\" connector=\"B\"/>";
    s += "<coupling-scheme:" + scheme + "><participants first=\"" + first + "\" second=\"" + second + "\"/>" + time;
    if (sendA)
      s += "<exchange data=\"DA\" mesh=\"MA\" from=\"A\" to=\"B\" " + exA + "/>";
    if (sendB)
      s += "<exchange data=\"DB\" mesh=\"MA\" from=\"B\" to=\"A\" " + exB + "/>";
    s += extra + "</coupling-scheme:" + scheme + "></precice-configuration>";
    return s;
  }
  std::string xmlMapped() const
  {
    std::string s, M = mapBy ? "MB" : "MA", O = mapBy ? "MA" : "MB";
    for (auto m : {"MA", "MB"})
      s += std::string("<mesh name=\"") + m + "\" dimensions=\"" + std::to_string(dims) + "\">" + (sendA ? "<use-data name=\"DA\"/>" : "") + (sendB ? "<use-data name=\"DB\"/>" : "") + "</mesh>";
    for (int who = 0; who < 2; ++who) {
      std::string me = who ? "B" : "A", other = who ? "A" : "B";
      bool        writes = who ? sendB : sendA, reads = who ? sendA : sendB;
      s += "<participant name=\"" + me + "\"><provide-mesh name=\"M" + me + "\"/>";
      if (who == mapBy)
        s += "<receive-mesh name=\"" + O + "\" from=\"" + other + "\"/>";
      if (writes)
        s += "<write-data name=\"D" + me + "\" mesh=\"M" + me + "\"/>";
      if (reads)
        s += "<read-data name=\"D" + other + "\" mesh=\"M" + me + "\"/>";
      if (who == mapBy && reads)
        s += "<mapping:nearest-neighbor direction=\"read\" from=\"" + O + "\" to=\"" + M + "\" constraint=\"consistent\"/>";
      if (who == mapBy && writes)
        s += "<mapping:nearest-neighbor direction=\"write\" from=\"" + M + "\" to=\"" + O + "\" constraint=\"" + (conserve ? "conservative" : "consistent") + "\"/>";
      s += (who ? extraB : extraA) + "</participant>";
    }
    s += "<m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:" + scheme + "><participants first=\"" + first + "\" second=\"" + second + "\"/>" + time;
    if (sendA)
      s += "<exchange data=\"DA\" mesh=\"" + O + "\" from=\"A\" to=\"B\" " + exA + "/>";
    if (sendB)
      s += "<exchange data=\"DB\" mesh=\"" + O + "\" from=\"B\" to=\"A\" " + exB + "/>";
    return s + extra + "</coupling-scheme:" + scheme + "></precice-configuration>";
  }
  std::string xmlOwn() const
  {
    std::string d = std::to_string(dims), s;
    auto        side = [&](char me, char other, bool sends, bool receives, const std::string &ex) {
      std::string m(1, me), o(1, other);
      s += "<participant name=\"" + m + "\"><provide-mesh name=\"M" + m + "\"/><receive-mesh name=\"M" + o + "\" from=\"" + o + "\" api-access=\"true\"/>";
      if (sends)
        s += "<write-data name=\"D" + m + "\" mesh=\"M" + m + "\"/>";
      if (receives)
        s += "<read-data name=\"D" + o + "\" mesh=\"M" + o + "\"/>";
      s += ex + "</participant>";
    };
    s += "<mesh name=\"MA\" dimensions=\"" + d + "\">" + (sendA ? "<use-data name=\"DA\"/>" : "") + "</mesh><mesh name=\"MB\" dimensions=\"" + d + "\">" + (sendB ? "<use-data name=\"DB\"/>" : "") + "</mesh>" + extraMesh;
    side('A', 'B', sendA, sendB, extraA);
    side('B', 'A', sendB, sendA, extraB);
    s += "<m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:" + scheme + "><participants first=\"" + first + "\" second=\"" + second + "\"/>" + time;
    if (sendA)
      s += "<exchange data=\"DA\" mesh=\"MA\" from=\"A\" to=\"B\" " + exA + "/>";
    if (sendB)
      s += "<exchange data=\"DB\" mesh=\"MB\" from=\"B\" to=\"A\" " + exB + "/>";
    return s + extra + "</coupling-scheme:" + scheme + "></precice-configuration>";
  }
};
} // namespace h
