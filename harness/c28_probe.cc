// Answers questions about a C++ model of binary relations: one model per
// request, described on standard input.
//   R <name> <arity> <domain>...       a relation
//   A <domain> <alpha>                 a concentration
//   C <domain> <item> <table>          an entity's group
//   O <relation> <value> <item>...     an observation
//   G <relation> <domain> <item> <n> <table>...   reassignment scores
//   M <domain> <item>                  weights of the groups for a reassignment
//   W <domain>                         weights of the groups for a new entity
//   P <n> then n times <relation> <value> <item>...   joint predictive
//   S                                  the score
//   .                                  the end
#include <cmath>
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>

#include "irm.hh"

int main() {
  std::string line;
  std::mt19937 prng(1);
  std::unique_ptr<IRM> m(new IRM({}));
  std::map<std::string, size_t> arity;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string op;
    is >> op;
    auto items = [&](const std::string& r) {
      T_items t(arity.at(r));
      for (auto& i : t) is >> i;
      return t;
    };
    if (op == "R") {
      std::string n;
      size_t k;
      is >> n >> k;
      std::vector<std::string> d(k);
      for (auto& x : d) is >> x;
      arity[n] = k;
      m->add_relation(n, T_clean_relation(d, true, DistributionSpec("bernoulli")));
    } else if (op == "A") {
      std::string d;
      double a;
      is >> d >> a;
      m->domains.at(d)->crp.alpha = a;
    } else if (op == "C") {
      std::string d;
      int i, t;
      is >> d >> i >> t;
      m->domains.at(d)->incorporate(&prng, i, t);
    } else if (op == "O") {
      std::string r;
      bool v;
      is >> r >> v;
      m->incorporate(&prng, r, items(r), v);
    } else if (op == "G") {
      std::string r, d;
      int i, n;
      is >> r >> d >> i >> n;
      std::vector<int> ts(n);
      for (auto& t : ts) is >> t;
      auto* rel = std::get<Relation<bool>*>(m->get_relation(r));
      for (double x : rel->logp_gibbs_exact(*m->domains.at(d), i, ts, &prng)) printf("%.17g ", x);
      printf("\n");
    } else if (op == "M" || op == "W") {
      std::string d;
      int i;
      is >> d;
      if (op == "M") is >> i;
      for (auto& [t, w] : op == "M" ? m->domains.at(d)->tables_weights_gibbs(i) : m->domains.at(d)->tables_weights()) printf("%d %.17g ", t, w);
      printf("\n");
    } else if (op == "P") {
      int n;
      is >> n;
      std::vector<std::tuple<std::string, T_items, ObservationVariant>> obs;
      for (int k = 0; k < n; ++k) {
        std::string r;
        bool v;
        is >> r >> v;
        T_items t = items(r);
        obs.push_back({r, t, ObservationVariant(v)});
      }
      printf("%.17g\n", m->logp(obs, &prng));
    } else if (op == "S") {
      printf("%.17g\n", m->logp_score());
    } else {
      printf("end\n");
      fflush(stdout);
      m.reset(new IRM({}));
      arity.clear();
    }
  }
}
