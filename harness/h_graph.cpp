// C24: the graph of nodes and edges says what it was built from, after every sequence of changes.
#include "Edge.hpp"
#include "Net.hpp"
#include "Node.hpp"
#include "mc.hpp"
#include <algorithm>
#include <memory>
using json = nlohmann::json;
using Network::Edge;
using Network::Net;
using Network::Node;

struct Modeledge {
  std::string id;
  int from, to;
};

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  std::vector<std::string> const nodeids = {"b", "a", "c"}, edgeids = {"e2", "e10", "a"};

  ex.scenario("graphs and changes", [&] {
    int n = ex.choose(4, "nodes");
    int m = n < 2 ? 0 : ex.choose(ex.pick(3, 4), "edges");
    std::vector<std::unique_ptr<Node>> nodes;
    for (int i = 0; i < n; ++i) nodes.push_back(std::make_unique<Node>(json{{"id", nodeids[static_cast<std::size_t>(i)]}}));
    std::vector<std::unique_ptr<Edge>> edges;
    std::vector<Modeledge> model;
    std::vector<std::vector<int>> starting(3), ending(3); // of the nodes
    std::string what = std::to_string(n) + " nodes;";
    for (int k = 0; k < m; ++k) {
      int from = ex.choose(n), to = ex.choose(n - 1);
      if (to >= from) ++to;
      auto const &id = edgeids[static_cast<std::size_t>(k)];
      edges.push_back(std::make_unique<Edge>(json{{"id", id}, {"from", nodeids[static_cast<std::size_t>(from)]}, {"to", nodeids[static_cast<std::size_t>(to)]}}, nodes));
      model.push_back({id, from, to});
      starting[static_cast<std::size_t>(from)].push_back(k);
      ending[static_cast<std::size_t>(to)].push_back(k);
      what += " " + id + ":" + nodeids[static_cast<std::size_t>(from)] + "->" + nodeids[static_cast<std::size_t>(to)];
    }
    if (n && m) ex.split();
    auto erase = [](std::vector<int> &v, int x) {
      auto it = std::find(v.begin(), v.end(), x);
      if (it == v.end()) return false;
      v.erase(it);
      return true;
    };
    int depth = m ? ex.choose(ex.pick(4, 4), "changes") : 0;
    for (int d = 0; d < depth; ++d) {
      int op = ex.choose(3, "change"), i = ex.choose(n), k = ex.choose(m);
      auto ui = static_cast<std::size_t>(i), uk = static_cast<std::size_t>(k);
      what += "; " + std::string(op == 0 ? "remove " : op == 1 ? "start " : "end ") + edgeids[uk] + " at " + nodeids[ui];
      bool want, got;
      if (op == 0) {
        want = erase(starting[ui], k) || erase(ending[ui], k);
        got = nodes[ui]->remove_edge(edges[uk].get());
      } else if (op == 1) {
        want = model[uk].from == i;
        if (want) starting[ui].push_back(k);
        got = nodes[ui]->attach_starting_edge(edges[uk].get());
      } else {
        want = model[uk].to == i;
        if (want) ending[ui].push_back(k);
        got = nodes[ui]->attach_ending_edge(edges[uk].get());
      }
      ex.expect(got == want, "reported", what + ": reports " + std::to_string(got));
    }
    ex.note(what);
    if (depth || m > 1) ex.nontrivial();
    ex.state(what);
    std::vector<Node *> rawnodes;
    std::vector<Edge *> rawedges;
    for (auto &x : nodes) rawnodes.push_back(x.get());
    for (auto &x : edges) rawedges.push_back(x.get());
    auto attached = [&](std::vector<int> const &v) {
      std::vector<Edge *> r;
      for (int k : v) r.push_back(rawedges[static_cast<std::size_t>(k)]);
      std::sort(r.begin(), r.end());
      return r;
    };
    auto sorted = [](std::vector<Edge *> v) {
      std::sort(v.begin(), v.end());
      return v;
    };
    auto check_nodes = [&] {
      for (std::size_t i = 0; i < rawnodes.size(); ++i) {
        ex.expect(sorted(rawnodes[i]->get_starting_edges()) == attached(starting[i]) && sorted(rawnodes[i]->get_ending_edges()) == attached(ending[i]), "attached",
                  what + ": node " + nodeids[i] + " has other edges than were attached");
        ex.expect(rawnodes[i]->get_id() == nodeids[i] && rawnodes[i]->get_id_copy() == nodeids[i], "identity", what + ": a node has another id");
      }
      for (std::size_t k = 0; k < rawedges.size(); ++k)
        ex.expect(rawedges[k]->get_starting_node() == rawnodes[static_cast<std::size_t>(model[k].from)] && rawedges[k]->get_ending_node() == rawnodes[static_cast<std::size_t>(model[k].to)]
                      && rawedges[k]->get_id() == model[k].id,
                  "identity", what + ": an edge ends elsewhere or has another id");
    };
    check_nodes();
    // a net of some of the nodes and edges
    int without_node = n && !depth ? ex.choose(n + 1) - 1 : -1, without_edge = m && !depth ? ex.choose(m + 1) - 1 : -1;
    std::vector<std::unique_ptr<Node>> mine, rest;
    std::vector<std::unique_ptr<Edge>> myedges, restedges;
    std::vector<std::size_t> ni, ei;
    for (int i = 0; i < n; ++i) {
      if (i == without_node) {
        rest.push_back(std::move(nodes[static_cast<std::size_t>(i)]));
      } else {
        mine.push_back(std::move(nodes[static_cast<std::size_t>(i)]));
        ni.push_back(static_cast<std::size_t>(i));
      }
    }
    bool whole = true;
    for (int k = 0; k < m; ++k) {
      auto uk = static_cast<std::size_t>(k);
      if (k == without_edge) {
        restedges.push_back(std::move(edges[uk]));
        continue;
      }
      myedges.push_back(std::move(edges[uk]));
      ei.push_back(uk);
      auto f = static_cast<std::size_t>(model[uk].from), t = static_cast<std::size_t>(model[uk].to);
      whole = whole && model[uk].from != without_node && model[uk].to != without_node && std::count(starting[f].begin(), starting[f].end(), k) && std::count(ending[t].begin(), ending[t].end(), k);
    }
    std::unique_ptr<Net> net;
    bool threw = mc::throws([&] { net = std::make_unique<Net>(std::move(mine), std::move(myedges)); });
    ex.expect(threw == !whole, "incomplete", what + ": without node " + std::to_string(without_node) + " and edge " + std::to_string(without_edge) + (threw ? " a complete net was refused" : " an incomplete net was accepted"));
    if (threw) return;
    check_nodes();
    Net const &cnet = *net;
    std::vector<Node *> wantnodes;
    std::vector<Edge *> wantedges;
    std::vector<std::string> wantids;
    for (auto i : ni) wantnodes.push_back(rawnodes[i]), wantids.push_back(nodeids[i]);
    for (auto k : ei) wantedges.push_back(rawedges[k]);
    ex.expect(net->get_nodes() == wantnodes && net->get_edges() == wantedges && cnet.get_nodes() == std::vector<Node const *>(wantnodes.begin(), wantnodes.end())
                  && cnet.get_edges() == std::vector<Edge const *>(wantedges.begin(), wantedges.end()) && net->get_valid_node_ids() == wantids,
              "contents", what + ": the net has other nodes or edges");
    std::vector<std::string> ask = {"", "d", "aa", "e1"};
    ask.insert(ask.end(), nodeids.begin(), nodeids.end());
    ask.insert(ask.end(), edgeids.begin(), edgeids.end());
    for (auto const &id : ask) {
      Node *node = nullptr;
      Edge *edge = nullptr;
      for (auto i : ni)
        if (nodeids[i] == id) node = rawnodes[i];
      for (auto k : ei)
        if (model[k].id == id) edge = rawedges[k];
      ex.expect(net->get_node_by_id(id) == node, "lookup", what + ": wrong node for id " + id);
      ex.expect(net->get_edge_by_id(id) == edge, "lookup", what + ": wrong edge for id " + id);
      for (auto const &other : ask) {
        std::vector<Edge *> there, back;
        for (auto k : ei) {
          auto const &f = nodeids[static_cast<std::size_t>(model[k].from)], &t = nodeids[static_cast<std::size_t>(model[k].to)];
          if (f == id && t == other) there.push_back(rawedges[k]);
          if (f == other && t == id) back.push_back(rawedges[k]);
        }
        auto got = net->get_edge_by_node_ids(id, other);
        ex.expect(there.empty() ? got == nullptr : std::count(there.begin(), there.end(), got) == 1, "lookup", what + ": wrong edge from " + id + " to " + other);
        ex.expect(net->exists_edge_between(id, other) == (!there.empty() || !back.empty()), "lookup", what + ": wrong answer whether there is an edge between " + id + " and " + other);
      }
    }
    for (std::size_t i = 0; i < rawnodes.size(); ++i)
      ex.expect(net->exists_node(rawnodes[i]) == (static_cast<int>(i) == without_node ? nullptr : rawnodes[i]), "lookup", what + ": wrong answer whether a node belongs to the net");
    ex.expect(net->exists_node(nullptr) == nullptr, "lookup", what + ": a node that is none belongs to the net");
  });

  // edges that cannot be
  ex.scenario1("impossible edges", [&] {
    int n = ex.choose(3);
    std::vector<std::unique_ptr<Node>> nodes;
    for (int i = 0; i < n; ++i) nodes.push_back(std::make_unique<Node>(json{{"id", nodeids[static_cast<std::size_t>(i)]}}));
    std::vector<std::string> const names = {"b", "a", "A", "", "ab"};
    auto from = ex.of(names), to = ex.of(names);
    auto there = [&](std::string const &id) { return std::any_of(nodes.begin(), nodes.end(), [&](auto const &x) { return x->get_id() == id; }); };
    ex.state(std::to_string(n) + from + "," + to);
    ex.nontrivial();
    bool possible = there(from) && there(to) && from != to;
    std::unique_ptr<Edge> e;
    bool threw = mc::throws([&] { e = std::make_unique<Edge>(json{{"id", "e"}, {"from", from}, {"to", to}}, nodes); });
    ex.expect(threw == !possible, "impossible", "edge from '" + from + "' to '" + to + "' among " + std::to_string(n) + " nodes " + (threw ? "refused" : "accepted"));
    for (auto const &x : nodes)
      ex.expect(x->get_starting_edges().size() == (possible && x->get_id() == from) && x->get_ending_edges().size() == (possible && x->get_id() == to), "attached",
                "edge from '" + from + "' to '" + to + "' is attached elsewhere");
  });
  return ex.finish();
}
