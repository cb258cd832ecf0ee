// Connected components and shortest paths of the repository's graph class.
#include "sx_api.h"
#include "Graph.hpp"
#include <cmath>
#ifndef SX_NV
#define SX_NV 4
#endif
// An arbitrary undirected graph on SX_NV vertices.  Vertex names are arbitrary
// distinct integers chosen from a small set; edges and their insertion order,
// orientation and weights are symbolic.
struct G { int n; int name[SX_NV]; bool e[SX_NV][SX_NV]; double w[SX_NV][SX_NV]; };
static int idxOf(const G &g, int v) { for (int i = 0; i < g.n; i++) if (g.name[i] == v) return i; return -1; }
static void build(G &g, Graph &gr, bool weights) {
  g.n = sx_choose("n", 1, SX_NV);
  int shift = sx_choose("name_shift", 0, 1), rev = sx_choose("reverse_order", 0, 1);
  for (int i = 0; i < g.n; i++) { g.name[i] = (rev ? g.n - 1 - i : i) * (shift ? 3 : 1) + (shift ? 7 : 0); for (int j = 0; j < g.n; j++) { g.e[i][j] = false; g.w[i][j] = 0; } }
  int life = sx_choose("life", 0, 2); // new, cleared after another use, vertices known only after their edges
  if (life == 1) { gr.addEdge(g.name[0], 99, 2); if (g.n > 1) gr.addEdge(g.name[0], g.name[1], 0.5); gr.clearGraph(); }
  if (life != 2) for (int i = 0; i < g.n; i++) gr.addVertex(g.name[i]);
  for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++) {
    int p = sx_choose("edge", 0, 1);
    if (!p) continue;
    double w = 1;
    if (weights) { w = sx_real("weight"); sx_assume(w >= 0); sx_assume(w <= 1000); }
    g.e[i][j] = g.e[j][i] = true; g.w[i][j] = g.w[j][i] = w;
    if ((i + j) % 2) gr.addEdge(g.name[i], g.name[j], w); else gr.addEdge(g.name[j], g.name[i], w);
  }
  if (life == 2) for (int i = 0; i < g.n; i++) gr.addVertex(g.name[i]);
}
static void closure(const G &g, bool r[SX_NV][SX_NV]) {
  for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) r[i][j] = i == j || g.e[i][j];
  for (int k = 0; k < g.n; k++) for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) if (r[i][k] && r[k][j]) r[i][j] = true;
}
extern "C" void h_components() {
  Graph gr; G g; build(g, gr, false);
  bool r[SX_NV][SX_NV]; closure(g, r);
  std::vector<std::vector<int>> cc = gr.connectedComponents();
  int comp[SX_NV]; for (int i = 0; i < g.n; i++) comp[i] = -1;
  for (size_t c = 0; c < cc.size(); c++) {
    sx_prove(cc[c].size() > 0, "every reported component is non-empty");
    for (int v : cc[c]) { int i = idxOf(g, v); sx_prove(i >= 0, "components only contain vertices of the graph"); sx_prove(comp[i] == -1, "each vertex is in exactly one component"); comp[i] = (int)c; }
  }
  for (int i = 0; i < g.n; i++) sx_prove(comp[i] >= 0, "each vertex is in exactly one component");
  for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) sx_prove((comp[i] == comp[j]) == r[i][j], "two vertices share a component iff a path links them");
  sx_reach("components");
}
static void path(bool weights, bool exact) {
  Graph gr; G g; build(g, gr, weights);
  bool r[SX_NV][SX_NV]; closure(g, r);
  int s = sx_choose("source", 0, g.n - 1), t = sx_choose("target", 0, g.n - 1);
  std::vector<int> p = gr.shortestPathBetween(g.name[s], g.name[t]);
  if (!r[s][t]) { sx_prove(p.empty(), "no path is reported between unconnected vertices"); sx_reach("unconnected"); return; }
  sx_prove(!p.empty(), "a path is reported between connected vertices");
  sx_prove(p.front() == g.name[s] && p.back() == g.name[t], "the path starts and ends at the requested vertices");
  double len = 0; bool seen[SX_NV] = {false};
  for (size_t k = 0; k < p.size(); k++) {
    int i = idxOf(g, p[k]); sx_prove(i >= 0, "the path only visits vertices of the graph");
    sx_prove(!seen[i], "the path does not revisit a vertex"); seen[i] = true;
    if (k) { int j = idxOf(g, p[k - 1]); sx_prove(g.e[i][j], "consecutive vertices of the path are joined by an edge"); len += g.w[i][j]; }
  }
  // minimality against every simple path (enumerated by the reference)
  int st[SX_NV], ns = 0; bool used[SX_NV] = {false};
  double best[SX_NV]; // Bellman-Ford reference, symbolic weights
  for (int i = 0; i < g.n; i++) best[i] = i == s ? 0 : 1e6;
  for (int it = 0; it + 1 < g.n; it++) for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) if (g.e[i][j]) { double c = best[i] + g.w[i][j]; best[j] = sx_ite(sx_lt(c, best[j]), c, best[j]); }
  sx_prove(len <= best[t] + 1e-6, "the path has minimal total weight");
  sx_reach("connected");
}
extern "C" void h_path() { path(true, true); }
extern "C" void h_path_unknown() {
  Graph gr; G g; build(g, gr, false);
  int s = sx_choose("known", 0, g.n - 1), u = 1000;
  sx_prove(gr.shortestPathBetween(g.name[s], u).empty(), "a vertex that is not in the graph has no path");
  sx_prove(gr.shortestPathBetween(u, g.name[s]).empty(), "a vertex that is not in the graph has no path");
  sx_prove(gr.connectedComponents().size() >= 1, "queries leave the graph unchanged");
  gr.clearGraph(); sx_prove(gr.connectedComponents().empty(), "a cleared graph has no component");
  sx_reach("unknown");
}
