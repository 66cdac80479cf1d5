// What the C++ loaders read.  One request a line; strings in replies are hex.
//   S <schema>                          the schema
//   O <schema> <observations>           the observations
//   C <clusters>                        the clusters of a hierarchical model
//   M <schema> <observations> <out> <seed> <steps>
//       writes the clusters of a model after some moves, and says them
#include <cstdio>
#include <iostream>
#include <random>
#include <sstream>

#include "hirm.hh"
#include "util_io.hh"

static std::string hex(const std::string& s) {
  std::string r = "x";
  char b[3];
  for (unsigned char c : s) snprintf(b, sizeof b, "%02x", c), r += b;
  return r;
}
static void put(const std::string& s) { printf(" %s", hex(s).c_str()); }

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string op, a, b, out;
    is >> op >> a;
    if (op == "S") {
      for (auto& [n, tr] : load_schema(a)) {
        printf("relation");
        put(n);
        std::visit(
            [&](const auto& r) {
              if constexpr (std::is_same_v<std::decay_t<decltype(r)>, T_noisy_relation>) {
                put(r.base_relation);
                printf(" %zu", r.emission_spec.emission_args.size());
                for (auto& [k, v] : r.emission_spec.emission_args) put(k), put(v);
              } else {
                put("");
                printf(" %zu", r.distribution_spec.distribution_args.size());
                for (auto& [k, v] : r.distribution_spec.distribution_args) put(k), put(v);
              }
              for (auto& d : r.domains) put(d);
            },
            tr);
        printf("\n");
      }
    } else if (op == "O") {
      is >> b;
      T_schema s = load_schema(a);
      for (auto& [n, obs] : load_observations(b, s))
        for (auto& [items, value] : obs) {
          printf("observation");
          put(n);
          put(value);
          for (auto& i : items) put(i);
          printf("\n");
        }
    } else if (op == "C") {
      auto [rs, irms] = load_clusters_hirm(a);
      for (auto& [t, ns] : rs) {
        printf("relations %d", t);
        for (auto& n : ns) put(n);
        printf("\n");
      }
      for (auto& [t, ds] : irms)
        for (auto& [d, g] : ds)
          for (auto& [u, es] : g) {
            printf("entities %d", t);
            put(d);
            printf(" %d", u);
            for (auto& e : es) put(e);
            printf("\n");
          }
    } else if (op == "M") {
      unsigned seed;
      int steps;
      is >> b >> out >> seed >> steps;
      std::mt19937 prng(seed);
      T_schema s = load_schema(a);
      T_observations obs = load_observations(b, s);
      T_encoding enc = calculate_encoding(s, obs);
      HIRM m(s, &prng);
      incorporate_observations(&prng, &m, enc, obs);
      for (int i = 0; i < steps; ++i) {
        m.transition_cluster_assignments_all(&prng);
        for (auto& [t, irm] : m.irms) irm->transition_cluster_assignments_all(&prng);
      }
      to_txt(out, m, enc);
      for (auto& [n, c] : m.relation_to_code) {
        printf("relations %d", m.crp.assignments.at(c));
        put(n);
        printf("\n");
      }
      for (auto& [t, irm] : m.irms)
        for (auto& [d, dom] : irm->domains)
          for (auto& [e, u] : dom->crp.assignments) {
            printf("entities %d", t);
            put(d);
            printf(" %d", u);
            put(enc.second.at(d).at(e));
            printf("\n");
          }
    }
    printf("end\n");
    fflush(stdout);
  }
}
