"""Specifications of the planted bugs (see bugs.py). Each is written from the text of a property and the code."""
H = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include "apollo/Apollo.h"
#include "apollo/Dataset.h"
#include "apollo/ModelFactory.h"
#include "apollo/Region.h"
#define FAIL(...) do { printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
typedef std::vector<float> V;
static inline int pick(Apollo::Region &r, V f) { auto *c = r.begin(f); return r.getPolicyIndex(c); }
static inline int run(Apollo::Region &r, V f, double m) { auto *c = r.begin(f); int p = r.getPolicyIndex(c); r.end(c, m); return p; }
static inline void ins(Apollo::Dataset &d, V f, int p, double m) { d.insert(f, p, m); }
static inline std::unique_ptr<apollo::PolicyModel> mk(const char *k, int nf, int np, std::unordered_map<std::string, std::string> p = {})
{ return apollo::ModelFactory::createPolicyModel(k, nf, np, p); }
// runs f in a child; returns its wait status
template <class F> static int child(F f) { fflush(stdout); pid_t p = fork(); if (!p) { freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr); f(); exit(0); } int s; waitpid(p, &s, 0); return s; }
'''
BUGS = []


def bug(id, prop, edits, needs, breaks, main=None, **kw):
    if main is not None:
        kw['cpp'] = '#include "demo.h"\n' + kw.pop('pre', '') + 'int main(int argc, char **argv)\n{\n' + main.strip('\n') + '\n  _exit(0);\n}\n'
        kw.setdefault('files', {})['demo.h'] = H.lstrip()
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, **kw))


RG, AP, DS, MF = 'src/Region.cpp', 'src/Apollo.cpp', 'src/Dataset.cpp', 'src/ModelFactory.cpp'
DT, RF, PN = 'src/models/impl/DecisionTreeImpl.cpp', 'src/models/impl/RandomForestImpl.cpp', 'src/models/PolicyNet.cpp'
PA, KK = 'src/helpers/Parser.cpp', 'src/connectors/kokkos/kokkos-connector.cpp'

# ---------------------------------------------------------------- C01
bug('C01-static-bound', 'C01', [(MF, 'if (policy >= num_policies) {', 'if (policy > num_policies) {')],
    'a static policy equal to the number of policies', 'a Static region recommends policy n of n policies',
    '  Apollo::Region r(0, "r", 3, 0, "Static,policy=3");\n  int p = pick(r, {});\n  if (p < 0 || p > 2) FAIL("policy %d of 3", p);')
bug('C01-no-trees', 'C01', [(RF, '  int class_idx = 0;\n  for (size_t i = 1; i < num_classes; ++i)\n    if (count_per_class[i] > count_per_class[class_idx]) class_idx = i;\n', '  int class_idx = -1, max_count = 0;\n  for (size_t i = 0; i < num_classes; ++i)\n    if (count_per_class[i] > max_count) {\n      class_idx = i;\n      max_count = count_per_class[i];\n    }\n')],
    'a forest configured with zero trees, trained', 'policy -1 is recommended',
    '  Apollo::Region r(1, "r", 3, 0, "RandomForest,num_trees=0");\n  for (int i = 0; i < 4; i++) run(r, {float(i)}, 1);\n  r.train(0); int p = pick(r, {2}); if (p < 0 || p > 2) FAIL("policy %d of 3", p);')
# ---------------------------------------------------------------- C02
bug('C02-merge-overwrites', 'C02', [(DS, '    insert(features, policy, metric);\n  }\n}\n\nvoid Apollo::Dataset::find', '    auto it = data.find(d.first);\n    if (it != data.end())\n      it->second = metric;\n    else\n      insert(features, policy, metric);\n  }\n}\n\nvoid Apollo::Dataset::find')],
    'merging two datasets that share a (features, policy) pair', 'the shared pair takes the merged value instead of the average',
    '  Apollo::Dataset a, b; ins(a, {1}, 0, 2); ins(b, {1}, 0, 4); a.insert(b);\n  if (std::get<2>(a.toVectorOfTuples()[0]) != 3) FAIL("metric %f", std::get<2>(a.toVectorOfTuples()[0]));')
bug('C02-zero-metric-dropped', 'C02', [(RG, '  if (Config::APOLLO_PERSISTENT_DATASETS or model->isTrainable())\n', '  // A zero metric means the timer had no resolution, ignore it.\n  if (metric != 0.0 &&\n      (Config::APOLLO_PERSISTENT_DATASETS or model->isTrainable()))\n')],
    'an execution with metric exactly 0', 'the measurement is lost',
    '  Apollo::Region r(1, "r", 2, 0, "DecisionTree"); run(r, {1}, 0.0);\n  if (r.dataset.size() != 1) FAIL("size %zu", r.dataset.size());')
# ---------------------------------------------------------------- C03
bug('C03-float-compare', 'C03', [(DS, '      double prev_avg = best_policies[features].second;', '      float prev_avg = best_policies[features].second;')],
    'two metrics that differ only beyond single precision', 'a slower policy is taken as the fastest one',
    '  Apollo::Dataset a; ins(a, {1}, 0, 0.3); ins(a, {1}, 1, 0.3 + 1e-9);\n  std::vector<V> f; std::vector<int> p; std::map<V, std::pair<int, double>> m; a.findMinMetricPolicyByFeatures(f, p, m);\n  if (p[0] != 0) FAIL("policy %d", p[0]);')
bug('C03-nearest', 'C03', [('src/models/DatasetMap.cpp', '  if (best_policies.count(features) == 0) {', '  if (best_policies.lower_bound(features) == best_policies.end()) {'), ('src/models/DatasetMap.cpp', 'best_policies[features].first', 'best_policies.lower_bound(features)->second.first')],
    'a DatasetMap lookup of features below some stored vector but not stored', 'an unknown feature vector silently gets the policy of another one',
    '  Apollo::Dataset a; ins(a, {5}, 1, 0.3);\n  int s = child([&] { auto m = mk("DatasetMap", 1, 2); m->train(a); V f{3}; m->getIndex(f); });\n  if (WIFEXITED(s) && WEXITSTATUS(s) == 0) FAIL("unknown features accepted");')
# ---------------------------------------------------------------- C04
bug('C04-stop-no-gain', 'C04', [(DT, '  assert(split_it != End);\n', '  assert(split_it != End);\n\n  // A split that does not reduce the impurity is of no use.\n  if (min_gini >= gini_score) return node;\n')],
    'data where no single split lowers the impurity (exclusive or)', 'the tree stops at the root and recommends a slower policy for some trained vectors',
    '  Apollo::Dataset a; for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { ins(a, {float(x), float(y)}, x ^ y, 1); ins(a, {float(x), float(y)}, 1 - (x ^ y), 2); }\n  auto m = mk("DecisionTree", 2, 2, {{"max_depth", "5"}}); m->train(a);\n  for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { V f{float(x), float(y)}; if (m->getIndex(f) != (x ^ y)) FAIL("wrong policy"); }')
bug('C04-close-values', 'C04', [(DT, '      if (feature_val_left == feature_val_right) continue;\n', '      if (feature_val_right - feature_val_left < 1e-6f) continue;\n')],
    'feature values closer than 1e-6', 'such vectors are never separated (and the split may be empty)',
    '  Apollo::Dataset a; ins(a, {1e-7f}, 0, 1); ins(a, {5e-7f}, 1, 1); ins(a, {1}, 2, 1); ins(a, {2}, 0, 1);\n  int s = child([&] { auto m = mk("DecisionTree", 1, 3, {{"max_depth", "9"}}); m->train(a); V f{1e-7f}, g{5e-7f}; if (m->getIndex(f) != 0 || m->getIndex(g) != 1) exit(1); });\n  if (s) FAIL("close values not separated");')
bug('C04-weight', 'C04', [(DT, '          (idx * left_gini_score + (size - idx) * right_gini_score) / size;', '          (idx * left_gini_score + (size - idx - 1) * right_gini_score) / size;')],
    'data where the two sides of the best split are impure', 'splits do not minimise the weighted impurity',
    r'''
  // depth-1 trees: the threshold must be one of minimal weighted Gini
  for (int seed = 0; seed < 300; seed++) {
    srand(seed); Apollo::Dataset a; int lab[9]; for (int i = 0; i < 9; i++) ins(a, {float(i)}, lab[i] = rand() % 3, 1);
    double gk[10], best = 99; bool pure = true; for (int i = 1; i < 9; i++) pure &= lab[i] == lab[0]; if (pure) continue;
    for (int k = 1; k < 9; k++) { double g = 0; int c[2][3] = {}; for (int i = 0; i < 9; i++) c[i >= k][lab[i]]++; for (auto &x : c) { double n = x[0] + x[1] + x[2]; g += n * (1 - (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]) / n / n); } gk[k] = g; best = std::min(best, g); }
    auto m = mk("DecisionTree", 1, 3, {{"max_depth", "1"}}); m->train(a); m->store("t");
    std::ifstream f("t"); std::string l; float thr = -1; while (std::getline(f, l)) { size_t p = l.find("threshold: "); if (p != std::string::npos) { thr = atof(l.c_str() + p + 11); break; } }
    int k = std::ceil(thr); if (k < 1 || k > 8 || gk[k] > best + 1e-3) FAIL("threshold %f is not of minimal impurity", thr);
  }''')
# ---------------------------------------------------------------- C05
bug('C05-early-majority', 'C05', [(RF, '    count_per_class[dtree_prediction]++;\n', '    count_per_class[dtree_prediction]++;\n    // The majority is decided.\n    if (2 * count_per_class[dtree_prediction] >= (int)num_trees - 1) break;\n')],
    'an odd number of trees whose first (n-1)/2 votes for a class are a minority', 'a class without the most votes is recommended',
    r'''
  // find a forest whose trees disagree at some query: compare with the votes of the stored trees via single-tree prefixes
  for (int seed = 0; seed < 40; seed++) {
    Apollo::Dataset a; srand(seed); for (int i = 0; i < 12; i++) ins(a, {float(i)}, rand() % 3, 1);
    auto m = mk("RandomForest", 1, 3, {{"num_trees", "3"}, {"max_depth", "2"}}); m->train(a); m->store("f");
    std::ifstream in("f"); std::stringstream ss; ss << in.rdbuf(); std::string t = ss.str();
    std::vector<std::unique_ptr<apollo::PolicyModel>> ts; size_t p = t.find("tree: {");
    while (p != std::string::npos) { size_t q = t.find("tree: {", p + 5); std::string one = t.substr(p, q == std::string::npos ? t.rfind(",", t.rfind("]")) - p : t.rfind(",", q) - p); std::ofstream("one") << "# DecisionTreeImpl\n" << one << "\n"; auto d = mk("DecisionTree", 1, 3); d->load("one"); ts.push_back(std::move(d)); p = q; }
    if (ts.size() != 3) FAIL("parsed %zu trees", ts.size());
    for (int i = -1; i < 13; i++) { V f{i + .25f}; int c[3] = {}; for (auto &d : ts) c[d->getIndex(f)]++; int g = m->getIndex(f); for (int x : c) if (x > c[g]) FAIL("class %d has %d votes, another %d", g, c[g], x); }
  }''')
bug('C05-no-replacement', 'C05', [(RF, '''    for (size_t i = 0, end = features.size(); i < end; ++i) {
      int sample_idx = uniform_dist(generator);
      sample_features.push_back(features[sample_idx]);
      sample_responses.push_back(responses[sample_idx]);
    }
''', '''    for (size_t i = 0, end = features.size(); i < end; ++i) {
      size_t sample_idx = uniform_dist(generator);
      // The newest pair replaces the first drawn one, it is the most relevant.
      if (i == 0) sample_idx = features.size() - 1;
      sample_features.push_back(features[sample_idx]);
      sample_responses.push_back(responses[sample_idx]);
    }
''')], 'training data of several pairs and enough trees to see the distribution of the samples', 'samples are not drawn uniformly with replacement: the last pair is in every sample',
    r'''
  Apollo::Dataset a; for (int i = 0; i < 12; i++) ins(a, {float(i)}, i % 2, 1);
  auto m = mk("RandomForest", 1, 2, {{"num_trees", "60"}}); m->train(a); m->store("f");
  std::ifstream in("f"); std::string l; int trees = 0, with = 0; bool has = false;
  while (std::getline(in, l)) { if (l.find("tree: {") != std::string::npos) { trees++; with += has; has = false; } if (l.find("features: [ 11, ]") != std::string::npos) has = true; }
  with += has; if (trees != 60) FAIL("%d trees", trees); if (with == 60) FAIL("one pair is in all samples");''', count=2)
# ---------------------------------------------------------------- C06
bug('C06-traincount', 'C06', [(PN, '  f.read((char *)&trainCount, sizeof(int));\n', '  f.ignore(sizeof(int));\n')],
    'loading a PolicyNet with a threshold and a train count different from the loading model', 'the reward baseline after load differs from the stored one',
    r'''
  Apollo::Dataset a; ins(a, {1}, 0, 0.1); ins(a, {1}, 1, 0.5);
  auto m = mk("PolicyNet", 1, 2); for (int i = 0; i < 3; i++) m->train(a); m->store("p");
  auto n = mk("PolicyNet", 1, 2); n->load("p"); n->store("q");
  std::ifstream f("p"), g("q"); std::stringstream x, y; x << f.rdbuf(); y << g.rdbuf(); if (x.str() != y.str()) FAIL("stored again, the model differs");''')
bug('C06-latest-kept', 'C06', [(RG, '''               std::to_string(apollo->mpiRank) + "-" + name + ".yaml";
    model->store(filename);

    if (Config''', '''               std::to_string(apollo->mpiRank) + "-" + name + ".yaml";
    if (!fileExists(filename) || step > 0) model->store(filename);

    if (Config''')],
    'storing models in a directory that has a latest model, with training step 0', 'the latest model file is not the model of the latest training',
    r'''
  for (int r = 0; r < 2; r++) if (child([&] { setenv("APOLLO_STORE_MODELS", "1", 1); Apollo::Region g(1, "g", 2, 0, "DecisionTree"); V f{1}; ins(g.dataset, f, r, 1); ins(g.dataset, f, 1 - r, 2); g.train(0); _exit(0); })) FAIL("run");
  int s = child([&] { Apollo::Region g(1, "g", 2, 0, "DecisionTree,load"); if (pick(g, {1}) != 1) _exit(1); _exit(0); });
  if (s) FAIL("latest model is not the last one trained");''')
# ---------------------------------------------------------------- C07
bug('C07-frozen-not-loaded', 'C07', [(RG, '    if (ifs) dataset.load(ifs);\n', '    if (ifs && (model->isTrainable() || min_training_data > 0))\n      dataset.load(ifs);\n')],
    'persistent datasets with a model that is not trainable at creation (loaded or Static) in a later run', 'the measurements of the earlier run are lost, and overwritten at exit',
    r'''
  setenv("APOLLO_PERSISTENT_DATASETS", "1", 1);
  child([] { Apollo::Region *g = new Apollo::Region(1, "g", 2, 0, "DecisionTree"); run(*g, {1}, 1); run(*g, {2}, 1); });
  int s = child([] { Apollo::Region *g = new Apollo::Region(1, "g", 2, 0, "Static,policy=0"); if (g->dataset.size() != 2) _exit(1); });
  if (s) FAIL("measurements not restored");''')
bug('C07-negative', 'C07', [(DS, '    insert(features, policy, xtime);\n', '    // Ignore incomplete measurements.\n    if (xtime > 0) insert(features, policy, xtime);\n')],
    'a persisted metric that is zero or negative', 'the entry is lost by the round trip',
    '  Apollo::Dataset a, b; ins(a, {1}, 0, 0.0); ins(a, {1}, 1, -2.0); std::stringstream ss; a.store(ss); b.load(ss);\n  if (b.size() != 2) FAIL("size %zu", b.size());')
# ---------------------------------------------------------------- C08
bug('C08-eof-ends-data', 'C08', [(DS, '  while (!parser.getNextTokenEquals("}")) {', '  while (!parser.getNextTokenEquals("}") && *parser.getToken()) {')],
    'a dataset file cut at the end of an entry', 'partial data is silently accepted',
    '  Apollo::Dataset a; ins(a, {1}, 0, 1); ins(a, {2}, 1, 1); std::stringstream ss; a.store(ss); std::string t = ss.str(); t = t.substr(0, t.find("  1:"));\n  int s = child([&] { Apollo::Dataset b; std::stringstream x(t); b.load(x); });\n  if (WIFEXITED(s) && WEXITSTATUS(s) == 0) FAIL("truncated dataset accepted");')
bug('C08-buffer', 'C08', [('src/helpers/Parser.h', '  static constexpr size_t BUFSIZE = 64;\n  char buffer[BUFSIZE];\n', '  // Longest token.\n  static constexpr size_t BUFSIZE = 256;\n  char buffer[64];\n')],
    'a token longer than the buffer in a damaged file', 'memory is written out of bounds',
    r'''
  std::string t = "data: {\n  " + std::string(200, '7') + " {";
  Apollo::Dataset b; std::stringstream x(t); b.load(x);''', flags='-fsanitize=address', link='-fsanitize=address', sh=r'''
timeout 60 ./demo > out.txt 2> err.txt
! grep -q AddressSanitizer err.txt
exit $?''')
bug('C08-tree-tail', 'C08', [(DT, '''  parse_data(parser);

  parser.getNextToken();
  parser.parseExpected("}");
''', '''  parse_data(parser);

  // Consume the end of the tree.
  parser.getNextToken();
''')], 'a DecisionTree file without its last byte', 'a cut model file is accepted',
    r'''
  Apollo::Dataset a; ins(a, {1}, 0, 1); ins(a, {2}, 1, 1); auto m = mk("DecisionTree", 1, 2); m->train(a); m->store("t");
  std::ifstream f("t"); std::stringstream ss; ss << f.rdbuf(); std::string t = ss.str(); t = t.substr(0, t.rfind('}')); std::ofstream("u") << t;
  int s = child([&] { auto n = mk("DecisionTree", 1, 2); n->load("u"); });
  if (WIFEXITED(s) && WEXITSTATUS(s) == 0) FAIL("cut model accepted");''')
# ---------------------------------------------------------------- C09
bug('C09-mtd', 'C09', [(RG, '  } else if (0 < min_training_data && min_training_data <= dataset.size())\n', '  } else if (0 < min_training_data && min_training_data < dataset.size())\n')],
    'min_training_data set and exactly that much data', 'training happens one measurement late',
    '  Apollo::Region r(1, "r", 2, 3, "DecisionTree"); for (int i = 0; i < 3; i++) run(r, {float(i)}, 1);\n  if (r.model->isTrainable()) FAIL("not trained");')
bug('C09-first-empty', 'C09', [(AP, '''    for (auto &it : regions) {
      Region *reg = it.second;
      reg->train(step, doCollectPendingContexts);
    }
''', '''    for (auto &it : regions) {
      Region *reg = it.second;
      if (reg->dataset.size() <= 0) break;
      reg->train(step, doCollectPendingContexts);
    }
''')], 'a region without measurements that sorts before one with measurements, and a global training', 'regions with measurements are not trained',
    '  Apollo::Region *a = new Apollo::Region(1, "a", 2, 0, "DecisionTree"), *b = new Apollo::Region(1, "b", 2, 0, "DecisionTree"); run(*b, {1}, 1); Apollo::instance()->train(0);\n  if (b->model->isTrainable()) FAIL("not trained");')
bug('C09-period-begun', 'C09', [(RG, '             (idx % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0) {', '             ((int)dataset.size() % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0) {')],
    'a per-region period and repeated measurements of the same pair', 'the period counts distinct pairs instead of executions',
    '  setenv("APOLLO_PER_REGION_TRAIN_PERIOD", "4", 1); Apollo::Region r(1, "r", 1, 0, "DecisionTree"); for (int i = 0; i < 4; i++) run(r, {1}, 1);\n  if (r.model->isTrainable()) FAIL("not trained after 4 executions");')
# ---------------------------------------------------------------- C10
bug('C10-many-policies', 'C10', [('include/apollo/models/RoundRobin.h', '  int last_policy;', '  signed char last_policy;')],
    'more than 128 policies', 'policies from 128 on are never tried',
    '  auto m = mk("RoundRobin", 0, 200); V f; for (int i = 0; i < 400; i++) { int p = m->getIndex(f); if (p != i % 200) FAIL("decision %d is %d", i, p); }')
bug('C10-no-repeat', 'C10', [('src/models/Random.cpp', '    choice = random_dist(random_gen);\n', '    static int last = -1;\n    choice = random_dist(random_gen);\n    // Avoid trying the same policy twice in a row.\n    if (choice == last) choice = random_dist(random_gen);\n    last = choice;\n')],
    'a sequence of random decisions', 'decisions depend on the previous one (repetitions are too rare)',
    '  auto m = mk("Random", 0, 2); V f; int same = 0, last = -1; for (int i = 0; i < 20000; i++) { int p = m->getIndex(f); same += p == last; last = p; }\n  if (same < 9000 || same > 11000) FAIL("%d of 20000 repeat", same);')
# ---------------------------------------------------------------- C11
bug('C11-optimal-tail', 'C11', [('src/models/Optimal.cpp', '''void Optimal::load(const std::string &filename)
{
  std::ifstream infile(filename);
  std::string policy_str;

  while (std::getline(infile, policy_str, ','))
''', '''void Optimal::load(const std::string &filename)
{
  std::ifstream infile(filename);
  std::string policy_str;

  while (std::getline(infile, policy_str, ',') && infile.good())
''')], 'an optimal schedule without trailing separator', 'the last policy of the schedule is dropped',
    r'''
  std::ofstream("opt-r-rank-0.txt") << "1,0,1";
  int s = child([] { Apollo::Region r(0, "r", 2, 0, "Optimal"); int w[] = {1, 0, 1}; for (int x : w) { int p = pick(r, {}); if (p != x) _exit(1); } _exit(0); });
  if (s) FAIL("schedule not replayed");''')
bug('C11-switches', 'C11', [(AP, '  if (!(Config::APOLLO_SINGLE_MODEL || Config::APOLLO_REGION_MODEL)) {\n    std::cerr << "Either global or region modeling must be enabled"\n              << std::endl;\n    abort();\n  }\n', '  if (!(Config::APOLLO_SINGLE_MODEL || Config::APOLLO_REGION_MODEL)) {\n    std::cerr << "Either global or region modeling must be enabled"\n              << std::endl;\n    Config::APOLLO_REGION_MODEL = 1;\n  }\n')],
    'both modeling switches off', 'Apollo runs with per-region models instead of refusing',
    '  setenv("APOLLO_REGION_MODEL", "0", 1); setenv("APOLLO_SINGLE_MODEL", "0", 1);\n  int s = child([] { Apollo::instance(); _exit(0); });\n  if (WIFEXITED(s) && WEXITSTATUS(s) == 0) FAIL("accepted");')
bug('C11-depth-cap', 'C11', [(MF, 'if (it != model_params.end()) max_depth = std::stoul(it->second);\n    std::unique_ptr<PolicyModel> explorer;\n    it = model_params.find("explore");\n    // TODO: enable', 'if (it != model_params.end())\n      max_depth = std::min<unsigned long>(std::stoul(it->second), 8);\n    std::unique_ptr<PolicyModel> explorer;\n    it = model_params.find("explore");\n    // TODO: enable')],
    'max_depth above 8 and data that need more than 8 levels', 'the documented max_depth is not honoured',
    '  Apollo::Dataset a; for (int i = 0; i < 40; i++) ins(a, {float(i)}, i, 1);\n  auto m = mk("DecisionTree", 1, 40, {{"max_depth", "64"}}); m->train(a);\n  m->store("t"); std::ifstream f("t"); std::string l; while (std::getline(f, l)) if (l.find("max_depth: ") != std::string::npos) { if (l.find("64") == std::string::npos) FAIL("%s", l.c_str()); break; }')
# ---------------------------------------------------------------- C12
GPU = {'cuda_runtime.h': r'''
#pragma once
#include <vector>
// scripted events: an event completes when done is set
struct Ev { bool rec = false, done = false; float at = 0; };
typedef Ev *cudaEvent_t; typedef int cudaError_t;
enum { cudaSuccess = 0, cudaErrorNotReady = 600, cudaEventDefault = 0 };
extern std::vector<Ev *> EVS;
inline const char *cudaGetErrorString(int) { return "error"; }
inline int cudaEventCreateWithFlags(Ev **e, unsigned) { *e = new Ev; EVS.push_back(*e); return 0; }
inline int cudaEventDestroy(Ev *e) { return 0; }
inline int cudaEventRecord(Ev *e, int) { e->rec = true; return 0; }
inline int cudaEventQuery(Ev *e) { return e->done ? 0 : 600; }
inline int cudaEventSynchronize(Ev *e) { return 0; }
inline int cudaEventElapsedTime(float *ms, Ev *a, Ev *b) { if (!b->done) return 600; *ms = b->at - a->at; return 0; }
'''.lstrip(), 'hip/hip_runtime.h': r'''
#pragma once
#include "../cuda_runtime.h"
typedef Ev *hipEvent_t; typedef int hipError_t;
enum { hipSuccess = 0, hipErrorNotReady = 600, hipEventDefault = 0 };
inline const char *hipGetErrorString(int) { return "error"; }
inline int hipEventCreateWithFlags(Ev **e, unsigned f) { return cudaEventCreateWithFlags(e, f); }
inline int hipEventDestroy(Ev *e) { return 0; }
inline int hipEventRecord(Ev *e, int s) { return cudaEventRecord(e, s); }
inline int hipEventQuery(Ev *e) { return cudaEventQuery(e); }
inline int hipEventSynchronize(Ev *e) { return 0; }
inline int hipEventElapsedTime(float *ms, Ev *a, Ev *b) { return cudaEventElapsedTime(ms, a, b); }
'''.lstrip()}
GPRE = r'''
#include "cuda_runtime.h"
std::vector<Ev *> EVS;
typedef Apollo::RegionContext *C;
static C start(Apollo::Region &r, float f, bool hip = false) { C c = r.begin(hip ? Apollo::Region::TIMING_HIP_ASYNC : Apollo::Region::TIMING_CUDA_ASYNC); r.setFeature(c, f); r.getPolicyIndex(c); return c; }
static void done(int i, float ms) { EVS[2 * i]->at = 0; EVS[2 * i + 1]->at = ms; EVS[2 * i]->done = EVS[2 * i + 1]->done = true; }
static double got(Apollo::Region &r, float f) { for (auto &t : r.dataset.toVectorOfTuples()) if (std::get<0>(t)[0] == f) return std::get<2>(t); return -1; }
'''
GK = dict(gpu=1, flags='-DENABLE_CUDA -DENABLE_HIP', pre=GPRE)


def gbug(*a):
    bug(*a, files=dict(GPU), **GK)


gbug('C12-front-only', 'C12', [(RG, '''    double metric;
    if (context->timer->isDone(metric)) {
      collectContext(context, metric);
      return true;
    }

    return false;
  };

  pending_contexts.erase(std::remove_if(pending_contexts.begin(),
                                        pending_contexts.end(),
                                        isDone),
                         pending_contexts.end());
''', '''    double metric;
    if (context->timer->isDone(metric)) {
      collectContext(context, metric);
      return true;
    }

    return false;
  };

  // Kernels complete in order, stop at the first unfinished one.
  auto first = pending_contexts.begin();
  while (first != pending_contexts.end() && isDone(*first))
    ++first;
  pending_contexts.erase(pending_contexts.begin(), first);
''')], 'asynchronous executions that complete out of order', 'completed executions are not collected while an earlier one is unfinished',
     r'''
  Apollo::Region r(1, "r", 2, 0, "DecisionTree"); C a = start(r, 1), b = start(r, 2); r.end(a); r.end(b); done(1, 5); C c = start(r, 3); r.end(c);
  if (std::fabs(got(r, 2) - .005) > 1e-6) FAIL("completed execution not recorded");''')
gbug('C12-shared-code', 'C12', [('src/timers/TimerHipAsync.cpp', '  // Convert from ms to s\n  metric = hipTime / 1000.0;\n', '  // Convert from ms to s, events have a resolution of about 0.5 us.\n  metric = (int)(hipTime * 1000) / 1000 / 1000.0;\n')],
     'a HIP-timed execution whose time is not a whole number of milliseconds', 'the recorded time is truncated to milliseconds',
     '  Apollo::Region r(1, "r", 2, 0, "DecisionTree"); C a = start(r, 1, true); done(0, 2.5f); r.end(a);\n  if (std::fabs(got(r, 1) - .0025) > 1e-6) FAIL("recorded %f", got(r, 1));')
gbug('C12-exit-once', 'C12', [(RG, '  while (pending_contexts.size() > 0)\n    collectPendingContexts();\n', '  if (pending_contexts.size() > 0) collectPendingContexts();\n')],
     'executions still running when the program ends', 'their measurements are lost', r'''
  setenv("APOLLO_PERSISTENT_DATASETS", "1", 1);
  int s = child([] { Apollo::Region *r = new Apollo::Region(1, "r", 2, 0, "DecisionTree"); C a = start(*r, 1), b = start(*r, 2); r->end(a); r->end(b); done(0, 1);
    // the second completes while the destructor waits
    struct T { static void *f(void *) { usleep(200000); done(1, 1); return nullptr; } }; pthread_t t; pthread_create(&t, 0, T::f, 0); });
  std::ifstream f(".apollo/datasets/Dataset-r.yaml"); std::stringstream ss; ss << f.rdbuf(); size_t n = 0, p = 0; while ((p = ss.str().find("features", p)) != std::string::npos) p++, n++;
  if (n != 2) FAIL("%zu of 2 measurements persisted", n);''')
gbug('C12-metric-pending', 'C12', [(RG, '  collectContext(context, metric);\n\n  collectPendingContexts();\n', '  collectPendingContexts();\n\n  collectContext(current_context ? current_context : context, metric);\n')],
     'overlapping executions ended with explicit metrics in another order than begun', 'the metric is credited to the execution begun last',
     '  Apollo::Region r(1, "r", 2, 0, "DecisionTree"); C a = start(r, 1), b = start(r, 2); int s = child([&] { r.end(a, 7.0); _exit(got(r, 1) == 7.0 && got(r, 2) == -1 ? 0 : 1); });\n  if (s) FAIL("metric credited to another execution");')
# ---------------------------------------------------------------- C13
TS = 'src/timers/TimerSync.cpp'
bug('C13-micro', 'C13', [(TS, '  exec_time_end = ts.tv_sec + ts.tv_nsec / 1e9;', '  exec_time_end = ts.tv_sec + (ts.tv_nsec / 1000) / 1e6;')],
    'an execution shorter than some microseconds', 'times are off by up to a microsecond, even negative',
    '  Apollo::Region r(1, "r", 1, 0, "DecisionTree"); double mn = 1; for (int i = 0; i < 2000; i++) { auto *c = r.begin({float(i)}); r.getPolicyIndex(c); r.end(c); }\n  for (auto &t : r.dataset.toVectorOfTuples()) mn = std::min(mn, std::get<2>(t)); if (mn < 0) FAIL("time %g", mn);')
bug('C13-borrow', 'C13', [('src/timers/TimerSync.h', '  double exec_time_begin, exec_time_end;', '  double exec_time_begin, exec_time_end;\n  struct timespec begin_ts;'), ('src/timers/TimerSync.h', '#include "apollo/Timer.h"', '#include <time.h>\n\n#include "apollo/Timer.h"'),
    (TS, '  exec_time_begin = ts.tv_sec + ts.tv_nsec / 1e9;', '  begin_ts = ts;\n  exec_time_begin = 0;'), (TS, '  exec_time_end = ts.tv_sec + ts.tv_nsec / 1e9;', '  // Subtract as integers to keep the precision.\n  exec_time_end = (ts.tv_sec - begin_ts.tv_sec) +\n                  std::abs(ts.tv_nsec - begin_ts.tv_nsec) / 1e9;')],
    'an execution that crosses a second of the clock', 'the recorded time is too long',
    r'''
  Apollo::Region r(1, "r", 1, 0, "DecisionTree");
  for (int k = 0; k < 14; k++) { auto *c = r.begin({float(k)}); r.getPolicyIndex(c); usleep(100000); r.end(c); }
  for (auto &t : r.dataset.toVectorOfTuples()) if (std::get<2>(t) > .6 || std::get<2>(t) < .09) FAIL("time %f", std::get<2>(t));''')
bug('C13-nested', 'C13', [('src/timers/TimerSync.h', '  double exec_time_begin, exec_time_end;', '  static double exec_time_begin;\n  double exec_time_end;'), (TS, 'void TimerSync::start()\n', 'double TimerSync::exec_time_begin = 0;\n\nvoid TimerSync::start()\n')],
    'nested executions of different regions', 'the outer execution is timed from the begin of the inner one',
    '  Apollo::Region a(0, "a", 1, 0, "DecisionTree"), b(0, "b", 1, 0, "DecisionTree"); auto *x = a.begin({}); a.getPolicyIndex(x); usleep(100000); auto *y = b.begin({}); b.getPolicyIndex(y); b.end(y); a.end(x);\n  if (std::get<2>(a.dataset.toVectorOfTuples()[0]) < .09) FAIL("outer time %f", std::get<2>(a.dataset.toVectorOfTuples()[0]));')
# ---------------------------------------------------------------- C14
bug('C14-no-info', 'C14', [(AP, '      file_out << r->name << ", " << r->idx << "\\n";', '      if (r->idx > 0) file_out << r->name << ", " << r->idx << "\\n";')],
    'a region that was never executed, with execution info', 'it is missing from the report',
    '  child([] { setenv("APOLLO_STORE_EXEC_INFO", "1", 1); new Apollo::Region(1, "idle", 2); Apollo::Region *b = new Apollo::Region(1, "b", 2); run(*b, {1}, 1); });\n  std::ifstream f(".apollo/apollo_exec_info.csv"); std::stringstream ss; ss << f.rdbuf(); if (ss.str().find("idle, 0") == std::string::npos) FAIL("%s", ss.str().c_str());')
gbug('C14-idx', 'C14', [(RG, '    trace_file << context->idx << " ";', '    trace_file << this->idx - 1 << " ";')],
     'asynchronous executions that overlap, with tracing', 'rows show the index of another execution', r'''
  setenv("APOLLO_TRACE_CSV", "1", 1);
  child([] { Apollo::Region *r = new Apollo::Region(1, "r", 2, 0, "DecisionTree"); C a = start(*r, 1), b = start(*r, 2); done(0, 1); done(1, 1); r->end(a); r->end(b); });
  std::ifstream f(".apollo/traces/trace-DecisionTree-region-r-rank-0.csv"); std::string l; std::getline(f, l); std::getline(f, l); if (l.find("r 0 1 ") == std::string::npos) FAIL("%s", l.c_str());''')
bug('C14-frozen', 'C14', [(RG, '''    trace_file << apollo->mpiRank << " ";
    trace_file << model->name << " ";
    trace_file << this->name << " ";
    trace_file << context->idx << " ";
    for (auto &f : context->features)
''', '''    trace_file << apollo->mpiRank << " ";
    trace_file << (model->isTrainable() ? model->name : "Static") << " ";
    trace_file << this->name << " ";
    trace_file << context->idx << " ";
    for (auto &f : context->features)
''')], 'tracing an execution after the model was trained', 'the row does not name the model in use', r'''
  setenv("APOLLO_TRACE_CSV", "1", 1);
  child([] { Apollo::Region *r = new Apollo::Region(1, "r", 2, 0, "DecisionTree"); run(*r, {1}, 1); r->train(0); run(*r, {1}, 1); });
  std::ifstream f(".apollo/traces/trace-DecisionTree-region-r-rank-0.csv"); std::string l; int n = 0; while (std::getline(f, l)) n += l.find("0 DecisionTree r") == 0; if (n != 2) FAIL("%d rows", n);''')
# ---------------------------------------------------------------- C15
bug('C15-policy-twice', 'C15', [(RG, '    trace_out << "] policy " << choice << std::endl;', '    trace_out << "] policy " << model->getIndex(context->features) << std::endl;')],
    'policy tracing with an exploring model', 'tracing a decision advances the exploration',
    '  setenv("APOLLO_TRACE_POLICY", "1", 1); Apollo::Region r(1, "r", 3, 0, "DecisionTree"); for (int i = 0; i < 6; i++) { int p = run(r, {1}, 1); if (p != i % 3) FAIL("decision %d is %d", i, p); }')
bug('C15-best-trained', 'C15', [(RG, '''    fout << trace_out.str();
    fout.close();
  }

  model->train(dataset);
''', '''    fout << trace_out.str();
    fout.close();

    // The other policies are not needed for training, drop them.
    Apollo::Dataset best;
    for (auto &b : min_metric_policies) {
      auto f = b.first;
      best.insert(f, b.second.first, b.second.second);
    }
    model->train(best);
    dataset = best;
  } else
    model->train(dataset);
''')], 'tracing best policies, and a model that is trained repeatedly (PolicyNet) or a single-policy history', 'measurements of slower policies are dropped, a PolicyNet trains on other data',
    r'''
  setenv("APOLLO_TRACE_BEST_POLICIES", "1", 1); Apollo::Region r(1, "r", 2, 0, "PolicyNet"); V f{1}; ins(r.dataset, f, 0, 1); f = {1}; ins(r.dataset, f, 1, 2); r.train(0);
  if (r.dataset.size() != 2) FAIL("%zu entries after training", r.dataset.size());''')
# ---------------------------------------------------------------- C16
bug('C16-shared-rr', 'C16', [('include/apollo/models/RoundRobin.h', '  int last_policy;', '  static int last_policy;'), ('src/models/RoundRobin.cpp', 'int RoundRobin::getIndex', 'int RoundRobin::last_policy = -1;\n\nint RoundRobin::getIndex')],
    'two exploring regions interleaved', 'the exploration of one region depends on the other',
    '  Apollo::Region a(1, "a", 3, 0, "RoundRobin"), b(1, "b", 3, 0, "RoundRobin"); for (int i = 0; i < 6; i++) { int p = run(a, {1}, 1); run(b, {1}, 1); if (p != i % 3) FAIL("decision %d is %d", i, p); }')
bug('C16-skip-trained', 'C16', [(AP, '      reg->model->train(merged_dataset);', '      if (reg->model->isTrainable()) reg->model->train(merged_dataset);')],
    'single model, a region added after the first training', 'regions do not get the same model',
    r'''
  setenv("APOLLO_SINGLE_MODEL", "1", 1); setenv("APOLLO_REGION_MODEL", "0", 1);
  Apollo::Region *a = new Apollo::Region(1, "a", 2, 0, "DecisionTree"); V f{1}; ins(a->dataset, f, 0, 1); Apollo::instance()->train(0);
  Apollo::Region *b = new Apollo::Region(1, "b", 2, 0, "DecisionTree"); ins(b->dataset, f, 1, .1); Apollo::instance()->train(1);
  if (pick(*a, {1}) != pick(*b, {1})) FAIL("regions follow different models");''')
bug('C16-static-merged', 'C16', [(AP, '    Apollo::Dataset merged_dataset;\n', '    // Keep the merged measurements to avoid rebuilding them.\n    static Apollo::Dataset merged_dataset;\n')],
    'single model trained twice', 'the second training counts the earlier measurements twice',
    r'''
  setenv("APOLLO_SINGLE_MODEL", "1", 1); setenv("APOLLO_REGION_MODEL", "0", 1);
  Apollo::Region *a = new Apollo::Region(1, "a", 2, 0, "DecisionTree"); V f{1}; ins(a->dataset, f, 0, 8); f = {1}; ins(a->dataset, f, 1, 5); Apollo::instance()->train(0);
  f = {1}; ins(a->dataset, f, 0, 1); Apollo::instance()->train(1);  // policy 0: (8 + 1) / 2 = 4.5 < 5; counted twice: 6.25
  if (pick(*a, {1}) != 0) FAIL("wrong policy");''')
# ---------------------------------------------------------------- C17
MPI = r'''
cat > run.sh <<'X'
X
timeout 100 mpirun --oversubscribe -np 3 ./demo > out.txt 2> err.txt
rc=$?
tail -3 out.txt
[ $rc = 0 ]
exit $?
'''.replace("cat > run.sh <<'X'\nX\n", '')


def mbug(id, edits, needs, breaks, main):
    bug(id, 'C17', edits, needs, breaks, '  MPI_Init(&argc, &argv); int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);\n  setenv("APOLLO_COLLECTIVE_TRAINING", "1", 1); setenv("APOLLO_LOCAL_TRAINING", "0", 1);\n' + main.strip('\n') + '\n  MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize();', mpi=1, pre='#include <mpi.h>\n', sh=MPI)


mbug('C17-lower-ranks', [(AP, '    if (rank == mpiRank) continue;', '    if (rank <= mpiRank) continue;')],
     'at least two ranks', 'higher ranks do not learn from lower ones',
     '  Apollo::Region *r = new Apollo::Region(1, "r", 2, 0, "DecisionTree"); V f{float(rank)}; ins(r->dataset, f, 0, 1); Apollo::instance()->train(0);\n  if (r->dataset.size() != 3) FAIL("rank %d: %zu entries", rank, r->dataset.size());')
mbug('C17-pack-size', [(AP, '  int size = 0, measure_size = 0;\n', '  static int cached = 0;\n  if (cached) return cached;\n  int size = 0, measure_size = 0;\n'), (AP, '  MPI_Pack_size(1, MPI_DOUBLE, comm, &size);\n  measure_size += size;\n', '  MPI_Pack_size(1, MPI_DOUBLE, comm, &size);\n  measure_size += size;\n  cached = measure_size;\n')],
     'regions with different numbers of features', 'messages are too short (or long) for some regions: data is corrupted or the program dies',
     '  Apollo::Region *r = new Apollo::Region(1, "a", 2, 0, "DecisionTree"), *q = new Apollo::Region(4, "b", 2, 0, "DecisionTree"); V f{float(rank)}; ins(r->dataset, f, 0, 1); f = {float(rank), 1, 2, 3}; ins(q->dataset, f, 0, 1); Apollo::instance()->train(0);\n  if (r->dataset.size() != 3 || q->dataset.size() != 3) FAIL("rank %d: %zu %zu entries", rank, r->dataset.size(), q->dataset.size());')
mbug('C17-zero-skip', [(AP, '  char *sendbuf = (char *)malloc(send_size);\n', '  int max_size;\n  MPI_Allreduce(&send_size, &max_size, 1, MPI_INT, MPI_MIN, apollo_mpi_comm);\n  // Nothing to exchange.\n  if (max_size == 0) return;\n\n  char *sendbuf = (char *)malloc(send_size);\n')],
     'one rank without any measurement', 'no rank gets the measurements of the others',
     '  Apollo::Region *r = new Apollo::Region(1, "r", 2, 0, "DecisionTree"); V f{float(rank)}; if (rank != 1) ins(r->dataset, f, 0, 1); Apollo::instance()->train(0);\n  if (r->dataset.size() != 2) FAIL("rank %d: %zu entries", rank, r->dataset.size());')
# ---------------------------------------------------------------- C18
bug('C18-layer3-betas', 'C18', [(PN, '    layer3.step(learnRate, beta1, beta2);', '    layer3.step(learnRate);')],
    'beta1 or beta2 other than the default', 'the output layer uses the default betas', r'''
  // same start, same data; beta1/beta2 must reach all layers: compare the third layer after a second step
  auto bytes = [](const char *n) { std::ifstream f(n, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); };
  auto m = mk("PolicyNet", 1, 2); m->store("init");
  Apollo::Dataset a, b; ins(a, {3}, 0, .1); ins(a, {3}, 1, 2); ins(b, {3}, 0, 2); ins(b, {3}, 1, .1);
  std::string out[2]; int i = 0;
  for (const char *be : {"0.5", "0.99"}) { auto n = mk("PolicyNet", 1, 2, {{"beta1", be}}); n->load("init"); n->train(a); n->train(b); n->store("o"); out[i++] = bytes("o"); }
  size_t l3 = out[0].size() - 12 - 8 * 2;  // bias of the last layer
  if (out[0].substr(l3, 16) == out[1].substr(l3, 16)) FAIL("beta1 has no effect on the last layer");''')
bug('C18-stale-cache', 'C18', [(PN, '  trainNet(states, actions, rewards);\n\n  actionProbabilityMap.clear();\n', '  // The network changes only with data, keep evaluated probabilities otherwise.\n  bool changed = actionProbabilityMap.size() > 1;\n  trainNet(states, actions, rewards);\n\n  if (changed) actionProbabilityMap.clear();\n')],
    'training after decisions for a single feature vector', 'decisions keep the probabilities of the network before the training', r'''
  auto m = mk("PolicyNet", 1, 2, {{"lr", "0.05"}}); V f{3}; Apollo::Dataset a; ins(a, {3}, 0, .01); ins(a, {3}, 1, 3);
  for (int i = 0; i < 200; i++) { m->getIndex(f); m->train(a); }
  int n = 0; for (int i = 0; i < 400; i++) n += m->getIndex(f) == 0; if (n < 350) FAIL("fast policy chosen %d of 400", n);''')
bug('C18-batch-shrinks', 'C18', [(PN, '''    // Zero all gradient arrays.
    for (int i = 0; i < batchSize * inputSize; ++i) {
      inputGrad[i] = 0;
    }

    for (int i = 0; i < outputSize * inputSize; ++i) {
      weights_grad[i] = 0;
    }

    for (int i = 0; i < outputSize; ++i) {
      bias_grad[i] = 0;
    }
''', '''    // Zero all gradient arrays.
    for (int i = 0; i < batchSize * inputSize; ++i) {
      inputGrad[i] = 0;
    }

    for (int i = 0; i < outputSize * inputSize; ++i) {
      weights_grad[i] = 0;
    }

    // The bias gradients were accumulated into the step already.
    for (int i = 1; i < outputSize; ++i) {
      bias_grad[i] = 0;
    }
''')], 'more than one training', 'the bias gradient of the first output accumulates over trainings', r'''
  // opposite data: after two trainings from zero bias, sum over outputs of the gradient is zero, so are the Adam moments of equal magnitude for two policies
  auto m = mk("PolicyNet", 1, 2); Apollo::Dataset a, b; ins(a, {3}, 0, .1); ins(a, {3}, 1, 2); ins(b, {3}, 0, 1.9); ins(b, {3}, 1, .3); ins(b, {9}, 1, .7);
  m->train(a); m->train(b); m->train(b); m->store("o"); std::ifstream f("o", std::ios::binary); std::stringstream s; s << f.rdbuf(); std::string t = s.str(); double v[2]; memcpy(v, t.data() + t.size() - 28, 16);
  if (std::fabs(v[0] + v[1]) > 1e-9) FAIL("bias %g %g", v[0], v[1]);''')
bug('C18-threshold', 'C18', [(PN, '  if (baseline < threshold) return 0;\n', '  if (trainCount > 0 && baseline < threshold) return 0;\n')],
    'a positive threshold and a decision before any training', 'a policy is sampled although the reward average is below the threshold', r'''
  auto m = mk("PolicyNet", 1, 4, {{"threshold", "0.5"}}); V f{3}; for (int i = 0; i < 100; i++) if (m->getIndex(f) != 0) FAIL("policy %d before training", m->getIndex(f));''')
# ---------------------------------------------------------------- C19
KPRE = r'''
#include <impl/Kokkos_Profiling_Interface.hpp>
using namespace Kokkos::Tools::Experimental;
extern "C" { void kokkosp_init_library(int, uint64_t, uint32_t, void *); void kokkosp_declare_output_type(const char *, size_t, VariableInfo *); void kokkosp_declare_input_type(const char *, size_t, VariableInfo *);
void kokkosp_request_values(size_t, size_t, VariableValue *, size_t, VariableValue *); void kokkosp_end_context(size_t); void kokkosp_parse_args(int, char **); }
static VariableInfo I[9]; static std::vector<int64_t> SV[9];
static void in(size_t id) { I[id].type = ValueType::kokkos_value_int64; I[id].valueQuantity = CandidateValueType::kokkos_value_unbounded; kokkosp_declare_input_type(("in" + std::to_string(id)).c_str(), id, &I[id]); }
static void set(size_t id, std::vector<int64_t> v) { SV[id] = v; I[id].type = ValueType::kokkos_value_int64; I[id].valueQuantity = CandidateValueType::kokkos_value_set; I[id].candidates.set.size = v.size(); I[id].candidates.set.values.int_value = SV[id].data(); kokkosp_declare_output_type(("out" + std::to_string(id)).c_str(), id, &I[id]); }
static VariableValue val(size_t id, int64_t x) { VariableValue v; memset(&v, 0, sizeof v); v.type_id = id; v.value.int_value = x; v.metadata = &I[id]; return v; }
static void init() { setenv("APOLLO_POLICY_MODEL", "RandomForest,explore=RoundRobin", 1); kokkosp_init_library(0, 0, 0, nullptr); }
'''


def kbug(id, edits, needs, breaks, main):
    bug(id, 'C19', edits, needs, breaks, main, kokkos=1, pre=KPRE)


kbug('C19-radix', [(KK, '    policyChoice /= set_size;', '    policyChoice = policyChoice / set_size * (x < 1 ? 1 : 2);')],
     'three or more tuning variables', 'not all combinations are proposed',
     r'''
  init(); set(1, {1, 2}); set(2, {1, 2}); set(3, {1, 2}); std::set<std::vector<int64_t>> seen;
  for (int i = 0; i < 8; i++) { VariableValue t[] = {val(1, 0), val(2, 0), val(3, 0)}; kokkosp_request_values(i, 0, nullptr, 3, t); seen.insert({t[0].value.int_value, t[1].value.int_value, t[2].value.int_value}); kokkosp_end_context(i); }
  if (seen.size() != 8) FAIL("%zu of 8 combinations", seen.size());''')
kbug('C19-less', [(KK, '    for (int x = 0; x < l.num_variables; ++x) {\n      if (l.variable_ids[x].type_id', '    for (int x = 0; x + 1 < l.num_variables || x == 0; ++x) {\n      if (l.variable_ids[x].type_id')],
     'two tuning problems that differ in the last variable only', 'they share a region, and get values of policies of another number of candidates',
     r'''
  init(); in(1); set(2, {1, 2}); set(3, {1, 2, 3, 4}); std::set<int64_t> seen;
  for (int i = 0; i < 8; i++) { VariableValue c = val(1, 5), t = val(2, 0); kokkosp_request_values(2 * i, 1, &c, 1, &t); kokkosp_end_context(2 * i); t = val(3, 0); kokkosp_request_values(2 * i + 1, 1, &c, 1, &t); kokkosp_end_context(2 * i + 1); seen.insert(t.value.int_value); }
  if (seen.size() != 4) FAIL("%zu of 4 candidates", seen.size());''')
kbug('C19-end-twice', [(KK, '  tuned_contexts.erase(contextId);', '  // Contexts are requested again under the same id.\n  if (tuned_contexts.size() > 64) tuned_contexts.clear();')],
     'a context ended twice', 'the second end is recorded again (or crashes)',
     r'''
  int s = child([] {
    setenv("APOLLO_TRACE_CSV", "1", 1); init(); in(1); set(2, {1, 2});
    for (int i = 0; i < 3; i++) { VariableValue c = val(1, 5), t = val(2, 0); kokkosp_request_values(i, 1, &c, 1, &t); kokkosp_end_context(i); }
    for (int i = 0; i < 3; i++) kokkosp_end_context(i);
    exit(0); });
  std::ifstream f(".apollo/traces/trace-rank-0.csv"); std::string l; int n = 0; while (std::getline(f, l)) n++;
  if (s || n != 4) FAIL("ending an unknown context is recorded: status %d, %d lines", s, n);''')
kbug('C19-int32', [(KK, '      return static_cast<float>(value.value.int_value);', '      return static_cast<float>(static_cast<int>(value.value.int_value));')],
     'an integer context value beyond 32 bits', 'contexts with different values share one feature vector',
     r"""
  int s = child([] {
    setenv("APOLLO_TRACE_CSV", "1", 1); init(); in(1); set(2, {1, 2});
    for (int i = 0; i < 3; i++) { VariableValue c = val(1, 5ll << (30 + i)), t = val(2, 0); kokkosp_request_values(i, 1, &c, 1, &t); kokkosp_end_context(i); }
    exit(0); });
  FILE *p = popen("cat .apollo/traces/trace-*-region-*.csv | tail -n 3", "r"); char l[999]; int i = 0;
  while (fgets(l, sizeof l, p)) { float f; if (sscanf(l, "%*s %*s %*s %*s %f", &f) != 1 || fabs(f / (5ll << (30 + i)) - 1) > 1e-4) FAIL("features in: %s", l); i++; }
  if (s || i != 3) FAIL("%d rows", i);""")
# ---------------------------------------------------------------- C20
J = dict(flags='-DENABLE_JIT_DTREE')
bug('C20-right-only', 'C20', [(DT, '''void DecisionTreeImpl::generate_source(Node &node, OutputFormatter &source_fmt)
{
  if (!node.left && !node.right) {
''', '''void DecisionTreeImpl::generate_source(Node &node, OutputFormatter &source_fmt)
{
  // Nodes with equal children are leaves.
  if ((!node.left && !node.right) ||
      node.left->predicted_class == node.right->predicted_class) {
''')], 'a tree with a node whose children predict the same class but whose grandchildren differ', 'the compiled tree prunes a subtree that matters', r'''
  for (int seed = 0; seed < 12; seed++) {
    srand(seed); Apollo::Dataset a; int lab[10]; for (int i = 0; i < 10; i++) ins(a, {float(i)}, lab[i] = rand() % 2, 1);
    auto m = mk("DecisionTree", 1, 2, {{"max_depth", "10"}}); m->train(a); for (int i = 0; i < 10; i++) { V f{float(i)}; if (m->getIndex(f) != lab[i]) FAIL("seed %d: policy of %d", seed, i); }
  }''', **J)
bug('C20-stale', 'C20', [(DT, '''                    /* depth */ 0);

#ifdef ENABLE_JIT_DTREE
  compile_and_link_jit_evaluate_function();
#endif
}

DecisionTreeImpl::DecisionTreeImpl(int num_classes,
                                   std::vector''', '''                    /* depth */ 0);

#ifdef ENABLE_JIT_DTREE
  // Compile once, compilation is slow.
  if (!jit_evaluate_function) compile_and_link_jit_evaluate_function();
#endif
}

DecisionTreeImpl::DecisionTreeImpl(int num_classes,
                                   std::vector'''), ('src/models/impl/DecisionTreeImpl.h', '  int (*jit_evaluate_function)(const std::vector<float> &features);', '  int (*jit_evaluate_function)(const std::vector<float> &features) = nullptr;')],
    'a tree that is trained again', 'decisions are those of the first training',
    '  Apollo::Dataset a, b; ins(a, {1}, 0, 1); ins(b, {1}, 1, 1); auto m = mk("DecisionTree", 1, 2); m->train(a); m->train(b); V f{1}; if (m->getIndex(f) != 1) FAIL("stale decision");', **J)
bug('C20-zero', 'C20', [(DT, '''  if (node.left) {
    ++source_fmt;
    generate_source(*node.left, source_fmt);
''', '''  if (node.left) {
    ++source_fmt;
    if (node.threshold == 0)
      source_fmt << "if (features[" & node.feature_idx & "] < -1) return " &
          node.left->predicted_class & ";\\n";
    generate_source(*node.left, source_fmt);
''')], 'a split at threshold 0 with a deeper left side', 'decisions left of a zero threshold differ from the interpreted tree', r'''
  Apollo::Dataset a; ins(a, {-6}, 0, 1); ins(a, {-5}, 1, 1); ins(a, {-4}, 1, 1); ins(a, {-1}, 1, 1); ins(a, {1}, 2, 1); ins(a, {2}, 2, 1); ins(a, {3}, 2, 1); ins(a, {4}, 2, 1);
  auto m = mk("DecisionTree", 1, 3, {{"max_depth", "10"}}); m->train(a); V f{-6}; if (m->getIndex(f) != 0) FAIL("policy %d", m->getIndex(f));''', **J)
# ---------------------------------------------------------------- C21
CPRE = 'extern "C" { void *__apollo_region_create(int, const char *, int, int, const char *); void __apollo_region_begin(Apollo::Region *); void __apollo_region_end(Apollo::Region *); void __apollo_region_set_feature(Apollo::Region *, float); int __apollo_region_get_policy(Apollo::Region *); void __apollo_region_train(Apollo::Region *, int); }\n'
bug('C21-c-mtd', 'C21', [(AP, '  return new Apollo::Region(\n      num_features, id, num_policies, min_training_data, model_info);', '  return new Apollo::Region(num_features,\n                            id,\n                            num_policies,\n                            std::max(min_training_data, num_policies),\n                            model_info);')],
    'a region created through the C interface with fewer training data than policies (or none)', 'training happens at another time than through the C++ interface',
    '  Apollo::Region *r = (Apollo::Region *)__apollo_region_create(1, "r", 2, 0, "DecisionTree"); for (int i = 0; i < 4; i++) { __apollo_region_begin(r); __apollo_region_set_feature(r, i); __apollo_region_get_policy(r); __apollo_region_end(r); }\n  if (!r->model->isTrainable()) FAIL("trained without request");', pre=CPRE)
bug('C21-c-train-pending', 'C21', [(AP, '{ r->train(step); }', '{\n  // Force training, the caller asked for it.\n  r->train(step, true, true);\n}')],
    'training a trained region again through the C interface', 'the frozen model is trained again, unlike in the other interfaces',
    r'''
  Apollo::Region *r = (Apollo::Region *)__apollo_region_create(1, "r", 2, 0, "DecisionTree"); V f{1}; ins(r->dataset, f, 0, 1); __apollo_region_train(r, 0); f = {1}; ins(r->dataset, f, 1, .1); __apollo_region_train(r, 1);
  if (pick(*r, {1}) != 0) FAIL("trained again");''', pre=CPRE)
bug('C21-begin-features', 'C21', [(RG, '  context->features = features;\n', '  context->features = features;\n  // Features are counts.\n  for (auto &f : context->features)\n    if (f < 0 && f > -1) f = 0;\n')],
    'a feature between -1 and 0 passed with begin(features)', 'it is recorded as 0, unlike when set one by one',
    '  Apollo::Region r(1, "r", 2, 0, "DecisionTree"); run(r, {-.5f}, 1); if (std::get<0>(r.dataset.toVectorOfTuples()[0])[0] != -.5f) FAIL("feature changed");')
# ---------------------------------------------------------------- C22
PYD = r'''
export PYTHONDONTWRITEBYTECODE=1
py=python3; python3 -c 'import yaml' 2> /dev/null || py=python3-vt
cat > forest.yaml <<'X'
%s
X
$py "$repo/src/python/analysis/%s.py" -i forest.yaml -o o.dot || exit 1
%s
'''


def node(ind, cls, feat=-1, thr='0', kids=None):
    t = ind + 'gini: 0.5,\n' + ind + 'num_samples: 2,\n' + ind + 'predicted_class: %d,\n' % cls + ind + 'feature_idx: %d,\n' % feat + ind + 'threshold: %s,\n' % thr + \
        ind + 'count_per_class: {\n' + ind + '  0: 1,\n' + ind + '  1: 1,\n' + ind + '},\n'
    for k, v in (kids or {}).items():
        t += ind + k + ': {\n' + v + ind + '},\n'
    return t


def tree(root, ind=''):
    return ind + 'tree: {\n' + ind + '  max_depth: 2,\n' + ind + '  classes: [ 0, 1, ],\n' + ind + '  num_features: 1,\n' + ind + '  root: {\n' + root + ind + '  },\n' + ind + '  data: {\n' + ind + '    0: { features: [ 1, ], class: 0 },\n' + ind + '  },\n' + ind + '}\n'


FOREST = '# RandomForestImpl\nrfc: {\n  num_trees: 12,\n  max_depth: 2,\n  classes: [ 0, 1, ],\n  trees: [\n' + ''.join(tree(node('    ', i % 2), '  ') + '    ,\n' for i in range(12)) + '  ]\n}'
ONE = '# DecisionTreeImpl\n' + tree(node('    ', 0, 0, '1.5', dict(left=node('      ', 0), right=node('      ', 1)))).rstrip()
ONEB = '# DecisionTreeImpl\n' + tree(node('    ', 0, 0, '-1.5e-07', dict(left=node('      ', 0), right=node('      ', 1)))).rstrip()
bug('C22-names', 'C22', [('src/python/analysis/rfc2dot.py', "'tree_%s' % (tree_idx))\n        dot += 'rfc -> tree_%s\\n' % (tree_idx)", "'tree_%s' % str(tree_idx)[-1])\n        dot += 'rfc -> tree_%s\\n' % str(tree_idx)[-1]")],
    'a forest of more than ten trees', 'trees share nodes of the graph', sh=PYD % (FOREST, 'rfc2dot', r'''
n=$(grep -o '^tree_[0-9]*_root \[' o.dot | sort -u | wc -l); [ "$n" = 12 ]; exit $?'''))
bug('C22-right', 'C22', [('src/python/analysis/dtree2dot.py', "    if 'right' in node:\n", "    if 'right' in node and node['right']['num_samples'] > node['predicted_class'] and node['threshold'] >= 0:\n")],
    'a split at a negative threshold', 'the right subtree is missing from the graph', sh=PYD % (ONEB, 'dtree2dot', r'''
grep -q 'tree_root -> tree_root_right' o.dot; exit $?'''))
# ---------------------------------------------------------------- C23
# events that are complete as soon as they are recorded, and freed when destroyed
GPUF = {'cuda_runtime.h': GPU['cuda_runtime.h'].replace('EVS.push_back(*e); ', '').replace('extern std::vector<Ev *> EVS;\n', '').replace('inline int cudaEventDestroy(Ev *e) {', 'inline int cudaEventDestroy(Ev *e) { delete e;').replace('e->rec = true;', 'e->rec = e->done = true;'),
        'hip/hip_runtime.h': GPU['hip/hip_runtime.h'].replace('inline int hipEventDestroy(Ev *e) {', 'inline int hipEventDestroy(Ev *e) { delete e;')}
HEAP = '#include <malloc.h>\nstatic size_t live() { return mallinfo2().uordblks; }\n'
bug('C23-current', 'C23', [(RG, '  if (context == &sync_context) return;\n', '  // The latest context is still referenced.\n  if (context == &sync_context || context->idx + 1 == idx) return;\n')],
    'asynchronous executions that are collected while they are the latest one begun', 'their contexts and device events leak', r'''
  Apollo::Region r(1, "r", 2, 0, "RoundRobin");
  auto once = [&] { auto *c = r.begin(Apollo::Region::TIMING_CUDA_ASYNC); r.setFeature(c, 1); r.getPolicyIndex(c); r.end(c); };
  for (int i = 0; i < 100; i++) once(); size_t a = live(); for (int i = 0; i < 1000; i++) once();
  if (live() > a + 16000) FAIL("grew by %zu bytes", live() - a);''', pre=HEAP, gpu=True, flags='-DENABLE_CUDA -DENABLE_HIP', files=dict(GPUF))
bug('C23-threshold', 'C23', [(PN, '''  // Don't train if the average execution time is less than the threshold.
  if (baseline < threshold) return;

  // Create the arrays used for training.
  double *trainStates = new double[batchSize * inputSize];
  int *trainActions = new int[batchSize];
  double *trainRewards = new double[batchSize];
''', '''  // Create the arrays used for training.
  double *trainStates = new double[batchSize * inputSize];
  int *trainActions = new int[batchSize];
  double *trainRewards = new double[batchSize];

  // Don't train if the average execution time is less than the threshold.
  if (baseline < threshold) return;
''')], 'trainings of a PolicyNet while the average reward is below its threshold', 'the training arrays leak', r'''
  Apollo::Region r(1, "r", 2, 0, "PolicyNet,threshold=0.9"); for (int i = 0; i < 20; i++) { run(r, {1}, 5); r.train(i); }
  size_t a = live(); for (int i = 0; i < 1000; i++) { run(r, {1}, 5); r.train(i); }
  if (live() > a + 16000) FAIL("grew by %zu bytes", live() - a);''', pre=HEAP)
bug('C23-buffer', 'C23', [(PN, '''    if (batchSize * outputSize > maxArraySize) {
      maxArraySize = batchSize * outputSize;

      // Delete old arrays if they exist.
      if (outputs != NULL) {
        delete[] outputs;
        delete[] inputGrad;
      }

      outputs = new double[maxArraySize];
      inputGrad = new double[maxArraySize];
    }

    // Compute the maximum''', '''    if (batchSize * outputSize > maxArraySize) {
      maxArraySize = batchSize * outputSize;

      // Delete old arrays if they exist.
      if (outputs != NULL) {
        delete[] outputs;
        delete[] inputGrad;
      }

      outputs = new double[maxArraySize];
      // The gradient is per action and at least two rows.
      inputGrad = new double[outputSize * std::max(2, batchSize - 1)];
    }

    // Compute the maximum''')], 'training a PolicyNet with three or more measurements', 'the gradient is written past its array', r'''
  Apollo::Region r(1, "r", 4, 0, "PolicyNet"); for (int i = 0; i < 40; i++) run(r, {float(i % 5)}, 1); r.train(0); pick(r, {1});''',
    flags='-g -fsanitize=address', link='-fsanitize=address', sh='ASAN_OPTIONS=detect_leaks=0:exitcode=3 timeout 120 ./demo > out.txt 2> err.txt; rc=$?; grep -m1 ERROR err.txt; [ $rc = 0 ]; exit $?')
bug('C23-name', 'C23', [(RG, '  strncpy(name, regionName, sizeof(name) - 1);\n  name[sizeof(name) - 1] = ' + r"'\0'" + ';\n', '  strncpy(name, regionName, sizeof(name));\n')],
    'a region name of 64 or more characters', 'the name is not terminated and reads run into the following members',
    '  std::string n(64, ' + "'n'" + '); Apollo::Region r(1, n.c_str(), 2, 0, "RoundRobin"); for (int i = 0; i < 65; i++) pick(r, {1});\n  if (strlen(r.name) > 63) FAIL("name of %zu characters", strlen(r.name));')
bug('C23-pending', 'C23', [(RG, '    if (context->timer->isDone(metric)) {\n      collectContext(context, metric);\n      return true;\n    }\n', '    if (context->timer->isDone(metric)) {\n      collectContext(context, metric);\n      // The model may have been trained with this execution.\n      if (!model->isTrainable()) context->policy = -1;\n      return true;\n    }\n')],
    'an asynchronous execution collected when the model is trained', 'the destroyed context is written', r'''
  Apollo::Region r(1, "r", 2, 0, "RoundRobin");
  for (int i = 0; i < 5; i++) { auto *c = r.begin(Apollo::Region::TIMING_CUDA_ASYNC); r.setFeature(c, 1); r.getPolicyIndex(c); r.end(c); }''',
    gpu=True, flags='-g -fsanitize=address -DENABLE_CUDA -DENABLE_HIP', files=dict(GPUF), link='-fsanitize=address', sh='ASAN_OPTIONS=detect_leaks=0:exitcode=3 timeout 120 ./demo > out.txt 2> err.txt; rc=$?; grep -m1 ERROR err.txt; [ $rc = 0 ]; exit $?')
# ---------------------------------------------------------------- C14 (decisions and reductions), C17 (gather trace)
bug('C14-decision-order', 'C14', [(RG, '''    std::ofstream fout("rank-" + std::to_string(rank) + "-policies.txt",
                       std::ofstream::app);
''', '''    std::ofstream fout("rank-" + std::to_string(rank) + "-policies.txt",
                       context->idx ? std::ofstream::app : std::ofstream::trunc);
''')], 'policy tracing with a second region that starts later', 'the decisions traced before are dropped', r'''
  setenv("APOLLO_TRACE_POLICY", "1", 1); Apollo::Region a(1, "a", 2, 0, "RoundRobin"), b(1, "b", 2, 0, "RoundRobin");
  run(a, {1}, 1); run(a, {2}, 1); run(b, {1}, 1); run(a, {3}, 1);
  std::ifstream f("rank-0-policies.txt"); std::string l; int n = 0; while (getline(f, l)) n++; if (n != 4) FAIL("%d rows", n);''')
bug('C14-best-frozen', 'C14', [(RG, '''    dataset.findMinMetricPolicyByFeatures(features,
                                          responses,
                                          min_metric_policies);
    for (auto &b : min_metric_policies) {
''', '''    dataset.findMinMetricPolicyByFeatures(features,
                                          responses,
                                          min_metric_policies);
    if (min_metric_policies.size() > 1 && num_features == 0)
      min_metric_policies.clear();
    for (auto &b : min_metric_policies) {
      // Skip entries without a useful time.
      if (b.second.second <= 0.0) continue;
''')], 'best-policy tracing of a feature vector whose fastest metric is 0 or negative', 'the row is missing', r'''
  setenv("APOLLO_TRACE_BEST_POLICIES", "1", 1); Apollo::Region a(1, "a", 1, 0, "DecisionTree"); run(a, {1}, 0); run(a, {2}, 1); a.train(3);
  std::ifstream f("step-3-rank-0-a-best_policies.txt"); std::string l; int n = 0; while (getline(f, l)) n++; if (n != 3) FAIL("%d rows", n);''')
BUGS = [b for b in BUGS if b]

# ---------------------------------------------------------------- C24
MD, MR, RT = 'src/models/DecisionTree.cpp', 'src/models/RandomForest.cpp', 'src/models/RegressionTree.cpp'
bug('C24-samples', 'C24', [(MD, '  dtree->setMinSampleCount(1);\n', '  // Do not split off single samples.\n  dtree->setMinSampleCount(2);\n')],
    'the OpenCV build and a tree where two feature vectors of different fastest policies remain together', 'the trained tree recommends a slower policy for a measured feature vector',
    """  auto m = mk("DecisionTree", 1, 2, {{"max_depth", "10"}}); Apollo::Dataset d;
  for (int i = 0; i < 6; i++) ins(d, {float(i)}, i % 2, 1);
  m->train(d);
  for (int i = 0; i < 6; i++) { V v{float(i)}; if (m->getIndex(v) != i % 2) FAIL("policy %d for %d", m->getIndex(v), i); }""", opencv=True)
bug('C24-depth', 'C24', [(MR, '  rfc->setMaxDepth(max_depth);\n', '  // Shallow trees underfit in a forest.\n  rfc->setMaxDepth(std::max(max_depth, 4u));\n')],
    'the OpenCV build, a forest with max_depth below 4 and data that needs more', 'the trees of the forest are deeper than configured',
    """  auto m = mk("RandomForest", 1, 4, {{"max_depth", "1"}, {"num_trees", "5"}}); Apollo::Dataset d;
  for (int i = 0; i < 16; i++) ins(d, {float(i)}, i % 4, 1);
  m->train(d); m->store("f.yaml"); std::ifstream f("f.yaml"); std::string l; int bad = 0;
  while (std::getline(f, l)) { size_t p = l.find("depth:"); if (p != std::string::npos && (p == 0 || l[p - 1] != '_') && atoi(l.c_str() + p + 6) > 1) bad++; }
  if (bad) FAIL("%d nodes too deep", bad);""", opencv=True)
bug('C24-accuracy', 'C24', [(RT, '  dtree->setRegressionAccuracy(1e-6);\n', '  // Do not fit noise.\n  dtree->setRegressionAccuracy(0.01);\n')],
    'the OpenCV build with APOLLO_RETRAIN_ENABLE and execution times in milliseconds', 'the timing model predicts the same time for all features',
    """  Apollo::Dataset d;
  for (int i = 0; i < 40; i++) { ins(d, {float(i < 20 ? i : 500 + i)}, 0, i < 20 ? 0.001 : 0.004); ins(d, {float(i < 20 ? i : 500 + i)}, 1, 0.02); }
  auto t = apollo::ModelFactory::createRegressionTree(d); V a{3}, b{530};
  double x = t->getTimePrediction(a), y = t->getTimePrediction(b);
  if (std::fabs(x - 0.001) > 0.0005 || std::fabs(y - 0.004) > 0.0005) FAIL("%f %f", x, y);""", opencv=True)
bug('C24-stale', 'C24', [(RG, '  model->train(dataset);\n\n  if (Config::APOLLO_RETRAIN_ENABLE)\n', '  model->train(dataset);\n\n  // The timing model is only needed once.\n  if (Config::APOLLO_RETRAIN_ENABLE && !time_model)\n')],
    'the OpenCV build with APOLLO_RETRAIN_ENABLE, a region that is trained, measured further and trained again', 'the timing model still predicts from the measurements of the first training',
    """  setenv("APOLLO_RETRAIN_ENABLE", "1", 1);
  Apollo::Region *r = new Apollo::Region(1, "r", 1, 0, "DecisionTree");
  for (int i = 0; i < 20; i++) { V v{float(i)}; r->dataset.insert(v, 0, 1.0); }
  r->train(0);
  for (int i = 0; i < 20; i++) { V v{float(500 + i)}; r->dataset.insert(v, 0, 4.0); }
  r->train(1, true, true);
  V b{510}; double y = r->time_model->getTimePrediction(b);
  if (std::fabs(y - 4) > 0.5) FAIL("%f", y);""", opencv=True)
# ---------------------------------------------------------------- C25 and scale
PRE25 = r'''
#include <malloc.h>
#include <dlfcn.h>
__attribute__((noinline)) static std::string ask(int d) { std::string s = Apollo::instance()->getCallpathOffset(d); __asm__ volatile("nop" ::: "memory"); return s; }
__attribute__((noinline)) static std::string deep(int n, int d) { if (!n) return ask(d); std::string s = deep(n - 1, d); __asm__ volatile("nop" ::: "memory"); return s; }
'''
bug('C25-leak', 'C25', [(AP, '  free(stack_infos);\n\n', '\n')],
    'asking for identifiers again and again', 'every request keeps the symbol table of the stack',
    '  ask(3);\n  size_t a = mallinfo2().uordblks;\n  for (int i = 0; i < 1000; i++) ask(3);\n  size_t b = mallinfo2().uordblks;\n  if (b > a + 20000) FAIL("%zu bytes kept", b - a);', pre=PRE25)
bug('C25-paren', 'C25', [(AP, "  module_name = module_name.substr(0, module_name.find_last_of('('));\n", "  module_name = module_name.substr(0, module_name.find('('));\n")],
    'a call site in a library whose file name contains an opening parenthesis', 'the file name is cut short',
    r'''  std::ofstream("m.c") << "#include <string.h>\ntypedef void (*F)(void *);\nvoid hop(F f, void *a) { f(a); __asm__ volatile(\"nop\" ::: \"memory\"); }\n";
  if (system("gcc -O0 -shared -fPIC m.c -o 'lib(v2).so'")) _exit(9);
  void *h = dlopen("./lib(v2).so", RTLD_NOW); if (!h) _exit(9);
  auto hop = (void (*)(void (*)(void *), void *))dlsym(h, "hop");
  std::string id;
  hop(cb25, &id);
  if (id.compare(0, 11, "lib(v2).so@") != 0) FAIL("%s", id.c_str());''', pre=PRE25 + 'static void cb25(void *p) { *(std::string *)p = Apollo::instance()->getCallpathOffset(3); }\n')
bug('C25-offset', 'C25', [(AP, "  unsigned start = addr.find_first_of('[') + 1;\n  unsigned end = addr.find_last_of(']');\n  addr = addr.substr(start, end - start);\n",
     "  unsigned start = addr.find_first_of('[') + 1;\n  unsigned end = addr.find_last_of(']');\n  addr = addr.substr(start, end - start);\n  // Addresses have 12 hexadecimal digits, keep the varying part.\n  if (addr.size() > 13) addr = \"0x\" + addr.substr(addr.size() - 11);\n")],
    'call sites at addresses of more than 11 hexadecimal digits', 'the address is cut',
    r'''  void *bt[3]; std::string id = ask(3); unsigned long long a = strtoull(id.c_str() + id.rfind('@') + 1, 0, 16);
  if (a < (unsigned long long)(size_t)&PRE25_anchor - (1 << 28) || a > (unsigned long long)(size_t)&PRE25_anchor + (1 << 28)) FAIL("%s", id.c_str());''', pre=PRE25 + 'void PRE25_anchor() {}\n')
bug('C25-deep', 'C25', [(AP, '  void *buffer[walk_distance];\n  char **stack_infos;\n\n  backtrace(buffer, walk_distance);\n  stack_infos = backtrace_symbols(buffer, walk_distance);\n',
     '  // No call path of interest is deeper.\n  constexpr int max_walk_distance = 128;\n  if (walk_distance > max_walk_distance) walk_distance = max_walk_distance;\n  void *buffer[max_walk_distance];\n  char **stack_infos;\n\n  backtrace(buffer, walk_distance);\n  stack_infos = backtrace_symbols(buffer, walk_distance);\n')],
    'a distance above 128 in a chain at least that deep', 'the identifier of a nearer call site is returned',
    '  std::string a = deep(140, 144), b = deep(140, 100);\n  if (a == b) FAIL("main and the recursion have the same identifier %s", a.c_str());', pre=PRE25)
bug('C08-keys', 'C08', [(DS, '    parser.getNextToken();\n    parser.parseExpected("policy:");\n    parser.getNextToken();\n    parser.parse<int>(policy);\n', '    // Skip the policy key.\n    parser.getNextToken();\n    parser.getNextToken();\n    parser.parse<int>(policy);\n')],
    'a dataset file in which the key policy: is replaced by another word', 'the damaged file is loaded without an error',
    r'''  int s = child([] { std::istringstream is("data: {\n  0: { features: [ 1, ], gpu: 1, xtime: 2 },\n}\n"); Apollo::Dataset d; d.load(is); });
  if (WIFEXITED(s) && WEXITSTATUS(s) == 0) FAIL("accepted");''')
bug('C04-wide', 'C04', [(DT, '  int split_feature_idx = 0;\n', '  unsigned char split_feature_idx = 0;\n')],
    'a tree that splits on a feature with index 256 or above', 'the node splits on another (or no) feature',
    r'''  auto m = mk("DecisionTree", 300, 2);
  Apollo::Dataset d; V a(300, 1.0f), b(300, 1.0f); b[290] = 9; ins(d, a, 0, 1); ins(d, b, 1, 1);
  m->train(d);
  if (m->getIndex(a) != 0 || m->getIndex(b) != 1) FAIL("%d %d", m->getIndex(a), m->getIndex(b));''')
# ---------------------------------------------------------------- C26, OpenCV graphs, dataset files made elsewhere
RX = 'src/python/analysis/run-exhaustive.py'
SHX = r'''
cd "$t" || exit 9
cat > p.sh <<'P'
echo "$APOLLO_POLICY_MODEL $APOLLO_TRACE_CSV $APOLLO_RETRAIN_ENABLE" >> log
[ "$(wc -l < log)" = "$FAILAT" ] && exit 3
exit 0
P
'''
bug('C26-check', 'C26', [(RX, '        subprocess.run(args.exe, shell=True, check=True, env=subenv)\n\n    #subenv', '        subprocess.run(args.exe, shell=True, check=(i == 0), env=subenv)\n\n    #subenv')],
    'a program that fails with a static policy other than 0', 'the failure is ignored and the script goes on and succeeds',
    sh=SHX + 'FAILAT=2 python3 "$repo/src/python/analysis/run-exhaustive.py" -n 3 -x "sh p.sh" > /dev/null 2>&1; r=$?\n[ $r != 0 ] && [ "$(wc -l < log)" = 2 ]; exit $?')
bug('C26-env', 'C26', [(RX, "    subenv['APOLLO_RETRAIN_ENABLE'] = '0'\n", "    subenv.setdefault('APOLLO_RETRAIN_ENABLE', '0')\n")],
    're-training enabled in the environment of the script', 'the measured runs re-train',
    sh=SHX + 'APOLLO_RETRAIN_ENABLE=1 python3 "$repo/src/python/analysis/run-exhaustive.py" -n 2 -x "sh p.sh" > /dev/null 2>&1 || exit 1\n! grep -q " 1 1" log; exit $?')
import os as _os
with open(_os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), 'harness/pystub/cv2.py')) as _f:
    CV2 = _f.read()
CVF = '''%YAML:1.0
---
opencv_ml_rtrees:
   format: 3
   ntrees: 1
   trees:
      -
         nodes:
            - { depth:0, value:1., splits:[ { var:0, le:4. } ] }
            - { depth:1, value:1., splits:[ { var:0, le:2. } ] }
            - { depth:2, value:1. }
            - { depth:2, value:0. }
            - { depth:1, value:2. }
'''
bug('C22-cvedges', 'C22', [('src/python/analysis/rfc2dot_opencv.py', '        stack.append((j,d))\n        # append node', '        if depth > d + 1 or len(stack) == 0:\n            stack.append((j,d))\n        # append node')],
    'an OpenCV forest with a right child below the first level', 'the right child is drawn below another node',
    files={'cv2.py': CV2, 'f.yaml': CVF}, sh=r'''
py=python3; python3 -c 'import yaml' 2> /dev/null || py=python3-vt
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" $py "$repo/src/python/analysis/rfc2dot_opencv.py" -i "$here/f.yaml" -o "$t/o.dot" || exit 1
grep -o 'tree_0_d_[0-9]_n_[0-9] -> tree_0_d_[0-9]_n_[0-9]' "$t/o.dot" | tr -d ' ' | sed 's/_d_[0-9]//g' | sort > "$t/e"
printf 'tree_0_n_0->tree_0_n_1\ntree_0_n_0->tree_0_n_4\ntree_0_n_1->tree_0_n_2\ntree_0_n_1->tree_0_n_3\n' > "$t/x"
cmp "$t/e" "$t/x"; exit $?''')
bug('C07-comment', 'C07', [(PA, '    is.ignore(std::numeric_limits<std::streamsize>::max(), \'\\n\');\n', '    is.ignore(80, \'\\n\');\n')],
    'a dataset file with a comment line of more than 80 characters', 'the rest of the comment is read as data',
    r'''  std::string c = "# made from the traces of a very long list of files: "; for (int i = 0; i < 9; i++) c += "trace-" + std::to_string(i) + ".csv ";
  int s = child([&] { std::istringstream is(c + "\ndata: {\n  0: { features: [ 1, ], policy: 1, xtime: 2 },\n}\n"); Apollo::Dataset d; d.load(is); if (d.size() != 1) abort(); });
  if (s) FAIL("not loaded");''')
bug('C07-repeated', 'C07', [(DS, '    insert(features, policy, xtime);\n  }\n}', '    // Stored metrics are averages already.\n    data[std::make_pair(features, policy)] = xtime;\n  }\n}')],
    'a dataset file that lists a (features, policy) pair twice, or is loaded on top of measurements', 'the later value replaces the average',
    r'''  std::istringstream is("# agg by none\ndata: {\n  0: { features: [ 1, ], policy: 1, xtime: 2 },\n  1: { features: [ 1, ], policy: 1, xtime: 4 },\n}\n"); Apollo::Dataset d; d.load(is);
  if (std::get<2>(d.toVectorOfTuples()[0]) != 3) FAIL("%f", std::get<2>(d.toVectorOfTuples()[0]));''')

# ---------------------------------------------------------------- C27
def lbug(id, edits, needs, breaks, main, pre=''):
    bug(id, 'C27', edits, needs, breaks, '  MPI_Init(&argc, &argv); int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);\n' + main.strip('\n') + '\n  MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize();', mpi=1, pre='#include <mpi.h>\n' + pre, sh=MPI)


lbug('C27-load-root', [(RG, """                   "/" + model_name + "-latest-rank-" +
                   std::to_string(apollo->mpiRank) + "-" + std::string(name) +
""", """                   "/" + model_name + "-latest-rank-" +
                   std::to_string(0) + "-" + std::string(name) +
""")],
     'several ranks whose stored models of one region differ, regions created with load', 'every rank loads the model of rank 0',
     r"""  setenv("APOLLO_STORE_MODELS", "1", 1); Apollo::instance();
  { auto m = mk("DecisionTree", 1, 3); Apollo::Dataset d; ins(d, {1}, rank, 1); m->train(d); m->store(".apollo/models/DecisionTree-latest-rank-" + std::to_string(rank) + "-q.yaml"); }
  MPI_Barrier(MPI_COMM_WORLD);
  auto *r = new Apollo::Region(1, "q", 3, 0, "DecisionTree,load"); int p = pick(*r, {1});
  if (p != rank) FAIL("rank %d takes policy %d", rank, p);""")
lbug('C27-first-step', [(AP, '  if (Config::APOLLO_COLLECTIVE_TRAINING) {\n    // std::cout << "DO COLLECTIVE', '  // Start all ranks from the same data.\n  if (Config::APOLLO_COLLECTIVE_TRAINING || step == 1) {\n    // std::cout << "DO COLLECTIVE'),
     (AP, 'void Apollo::gatherCollectiveTrainingData(int step)\n{\n#ifdef ENABLE_MPI\n', 'void Apollo::gatherCollectiveTrainingData(int step)\n{\n#ifdef ENABLE_MPI\n  if (mpiSize < 2) return;\n')],
     'local training with at least two ranks and a training of step 1', 'the ranks exchange their measurements (or wait for each other for ever)',
     r"""  auto *r = new Apollo::Region(1, "q", 3, 0, "DecisionTree"); ins(r->dataset, {float(rank)}, rank, 1); Apollo::instance()->train(1);
  if (r->dataset.size() != 1) FAIL("rank %d has %zu measurements", rank, r->dataset.size());""")
lbug('C27-best-shared', [(RG, """    std::ofstream fout("step-" + std::to_string(step) + "-rank-" +
                       std::to_string(apollo->mpiRank) + "-" + name +
""", """    std::ofstream fout("step-" + std::to_string(step) + "-rank-" +
                       std::to_string(apollo->mpiRank & 1) + "-" + name +
""")],
     'best-policy tracing with three or more ranks', 'rank 2 overwrites the file of rank 0',
     r"""  setenv("APOLLO_TRACE_BEST_POLICIES", "1", 1); auto *r = new Apollo::Region(1, "q", 3, 0, "DecisionTree"); ins(r->dataset, {float(rank)}, rank, 1); Apollo::instance()->train(4);
  MPI_Barrier(MPI_COMM_WORLD); std::ifstream f("step-4-rank-" + std::to_string(rank) + "-q-best_policies.txt"); std::string l; getline(f, l);
  if (l.find("Rank " + std::to_string(rank) + " ") == std::string::npos) FAIL("rank %d: %s", rank, l.c_str());""")
# ---------------------------------------------------------------- C28
bug('C28-list-buffer', 'C28', [(RG, """    std::ofstream fout("rank-" + std::to_string(rank) + "-policies.txt",
                       std::ofstream::app);
    fout << trace_out.str();
    fout.close();
""", """    // Opening the file for every decision is slow.
    static std::ofstream fout("rank-" + std::to_string(rank) + "-policies.txt",
                              std::ofstream::app);
    fout << trace_out.str();
""")], 'policy tracing in a program that is killed', 'the last decisions are missing from the list', r"""
  int s = child([] { setenv("APOLLO_TRACE_POLICY", "1", 1); auto *r = new Apollo::Region(1, "q", 2, 0, "RoundRobin"); for (int i = 0; i < 5; i++) run(*r, {1}, 1); kill(getpid(), SIGKILL); });
  (void)s; std::ifstream f("rank-0-policies.txt"); std::string l; int n = 0; while (getline(f, l)) n++; if (n != 5) FAIL("%d of 5 decisions listed", n);""", pre='#include <signal.h>\n')
bug('C28-latest-at-exit', 'C28', [(RG, """               std::to_string(apollo->mpiRank) + "-" + name + ".yaml";
    model->store(filename);

    if (Config::APOLLO_RETRAIN_ENABLE) {""", """               std::to_string(apollo->mpiRank) + "-" + name + ".yaml";
    // The latest model is written once, at the end.
    latest_model_file = filename;

    if (Config::APOLLO_RETRAIN_ENABLE) {"""), (RG, '  if (Config::APOLLO_TRACE_CSV) trace_file.close();\n', '  if (!latest_model_file.empty()) model->store(latest_model_file);\n  if (Config::APOLLO_TRACE_CSV) trace_file.close();\n'),
   ('include/apollo/Region.h', '  // Information structure to hold context information.\n' if False else '  std::ofstream trace_file;\n', '  std::ofstream trace_file;\n  std::string latest_model_file;\n')],
    'model storing in a program that is killed after a training', 'the latest model is missing or an old one', r"""
  int s = child([] { setenv("APOLLO_STORE_MODELS", "1", 1); auto *r = new Apollo::Region(1, "q", 2, 0, "DecisionTree"); run(*r, {1}, 1); r->train(0); kill(getpid(), SIGKILL); });
  (void)s; if (!std::ifstream(".apollo/models/DecisionTree-latest-rank-0-q.yaml")) FAIL("the latest model is missing");""", pre='#include <signal.h>\n')
bug('C28-probe-dataset', 'C28', [(RG, """    if (ifs) dataset.load(ifs);
    ifs.close();
""", """    if (ifs) dataset.load(ifs);
    ifs.close();
    // Fail early if the dataset cannot be stored at the end.
    std::ofstream probe(dataset_file);
    if (!probe)
      std::cerr << "WARNING: Cannot write " << dataset_file << std::endl;
    probe.close();
""")], 'persistent datasets and a program that is killed', 'the measurements of earlier runs are lost', r"""
  setenv("APOLLO_PERSISTENT_DATASETS", "1", 1);
  auto f = [](bool die) { auto *r = new Apollo::Region(1, "q", 2, 0, "DecisionTree"); size_t n = r->dataset.size(); run(*r, {1}, 1); if (die) kill(getpid(), SIGKILL); exit(n); };
  int s = child([&] { f(false); }); if (!WIFEXITED(s) || WEXITSTATUS(s) != 0) FAIL("first run");
  child([&] { f(true); }); s = child([&] { f(false); });
  if (!WIFEXITED(s) || WEXITSTATUS(s) != 1) FAIL("the third run starts with %d measurements", WEXITSTATUS(s));""", pre='#include <signal.h>\n')
bug('C28-info-return', 'C28', [(AP, """    if (!file_out.is_open())
      std::cerr << "ERROR: Cannot write apollo exec info\\n";
""", """    if (!file_out.is_open()) {
      std::cerr << "ERROR: Cannot write apollo exec info\\n";
      return;
    }
""")], 'execution info that cannot be written, together with persistent datasets or traces', 'the datasets of the regions are not stored', r"""
  int s = child([] { setenv("APOLLO_PERSISTENT_DATASETS", "1", 1); setenv("APOLLO_STORE_EXEC_INFO", "1", 1); Apollo::instance(); (void)!system("mkdir .apollo/apollo_exec_info.csv");
    auto *r = new Apollo::Region(1, "q", 2, 0, "DecisionTree"); run(*r, {1}, 1); });
  if (!WIFEXITED(s) || WEXITSTATUS(s)) FAIL("status %d", s); if (!std::ifstream(".apollo/datasets/Dataset-q.yaml")) FAIL("no dataset");""")
bug('C28-parent', 'C28', [(AP, '  if (ret != 0 && errno != EEXIST)\n    throw', '  if (ret != 0 && (errno == EACCES || errno == EROFS))\n    throw')],
    'an output directory whose parent does not exist, with model storing', 'the run goes on and stores nothing', r"""
  int s = child([] { setenv("APOLLO_OUTPUT_DIR", "no/such", 1); setenv("APOLLO_STORE_MODELS", "1", 1); auto *r = new Apollo::Region(1, "q", 2, 0, "DecisionTree"); run(*r, {1}, 1); r->train(0); });
  if (WIFEXITED(s) && WEXITSTATUS(s) == 0) FAIL("the run succeeded");""")
# ---------------------------------------------------------------- scale and extremes
bug('C18-softmax-floor', 'C18', [(PN, '      alpha[i] = inputs[i * outputSize];\n', '      alpha[i] = 0;\n')],
    'a network (e.g. loaded) all of whose outputs are far below zero', 'the probabilities are not numbers',
    r"""  auto m = mk("PolicyNet", 1, 3); m->store("a"); std::string b; { std::ifstream f("a", std::ios::binary); std::stringstream s; s << f.rdbuf(); b = s.str(); }
  // the biases of the last layer are the last values before the reward average (8 bytes) and the training count (4 bytes)
  double v[3] = {-2000, -2000, -1000}; memcpy(&b[b.size() - 12 - 24], v, 24); { std::ofstream f("b", std::ios::binary); f << b; }
  m->load("b"); V x{3}; int n = 0; for (int i = 0; i < 50; i++) n += m->getIndex(x) == 2; if (n != 50) FAIL("policy 2 is taken %d of 50 times", n);""")
bug('C11-optimal-byte', 'C11', [('src/models/Optimal.cpp', """    optimal_policy.push_back(std::stoi(policy_str));

  infile.close();
}

}""", """    optimal_policy.push_back(static_cast<unsigned char>(std::stoi(policy_str)));

  infile.close();
}

}""")], 'an optimal schedule with a policy of 256 or above', 'another policy is recommended',
    r"""  { std::ofstream f("opt-r-rank-0.txt"); f << "1,300,2"; } auto *r = new Apollo::Region(0, "r", 400, 0, "Optimal"); run(*r, {}, 1); int p = run(*r, {}, 1); if (p != 300) FAIL("policy %d", p);""")
bug('C04-depth-limit', 'C04', [(DT, '  if (depth >= max_depth) return node;', '  // No useful tree is deeper.\n  if (depth >= max_depth || depth >= 32) return node;')],
    'data that needs more than 32 levels and a maximum depth above that', 'measured feature vectors get a slower policy',
    r"""  auto m = mk("DecisionTree", 50, 50, {{"max_depth", "100"}}); Apollo::Dataset d;
  for (int i = 0; i < 50; i++) { V v(50, 0.0f); v[i] = 1; ins(d, v, i, 1); }
  m->train(d); for (int i = 0; i < 50; i++) { V v(50, 0.0f); v[i] = 1; if (m->getIndex(v) != i) FAIL("policy %d for %d", m->getIndex(v), i); }""")
bug('C09-idx-mask', 'C09', [(RG, "(idx % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0)", "((idx & 0x3ff) % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0)")],
    'a per-region period above 1023', 'the region trains at another count',
    r"""  setenv("APOLLO_PER_REGION_TRAIN_PERIOD", "1500", 1); auto *r = new Apollo::Region(1, "r", 2, 0, "DecisionTree");
  for (int i = 0; i < 1499; i++) run(*r, {1}, 1); if (!r->model->isTrainable()) FAIL("trained too early"); run(*r, {1}, 1); if (r->model->isTrainable()) FAIL("not trained");""")
bug('C16-many', 'C16', [(AP, "    for (auto &it : regions) {\n      Region *reg = it.second;\n      reg->train", "    int budget = 32;\n    for (auto &it : regions) {\n      // Bound the time of a training step.\n      if (budget-- == 0) break;\n      Region *reg = it.second;\n      reg->train")],
    'more than 32 regions', 'the last regions are not trained although they would be when alone',
    r"""  std::vector<Apollo::Region *> v; for (int i = 0; i < 40; i++) { v.push_back(new Apollo::Region(1, ("r" + std::to_string(i)).c_str(), 2, 0, "DecisionTree")); run(*v[i], {1}, 1); }
  Apollo::instance()->train(0); for (auto *r : v) if (r->model->isTrainable()) FAIL("%s is not trained", r->name);""")
# ---------------------------------------------------------------- rarely taken combinations
bug('C07-load-resets', 'C07', [(RG, '    if (ifs) dataset.load(ifs);', '    // The loaded model already contains these measurements.\n    if (ifs && !model_params.count("load")) dataset.load(ifs);')],
    'persistent datasets together with a region that loads its stored model', 'the measurements of earlier runs are not found, and lost at the end of the run', r"""
  setenv("APOLLO_PERSISTENT_DATASETS", "1", 1); setenv("APOLLO_STORE_MODELS", "1", 1);
  int s = child([] { auto *r = new Apollo::Region(1, "q", 2, 0, "DecisionTree"); run(*r, {1}, 1); run(*r, {2}, 1); r->train(0); }); if (s) FAIL("first run");
  s = child([] { auto *r = new Apollo::Region(1, "q", 2, 0, "DecisionTree,load"); exit(r->dataset.size()); });
  if (!WIFEXITED(s) || WEXITSTATUS(s) != 2) FAIL("%d measurements", WEXITSTATUS(s));""")
gbug('C12-gives-up', 'C12', [(RG, '  while (pending_contexts.size() > 0)\n    collectPendingContexts();\n', '  // Do not hang on devices that do not answer.\n  for (int tries = 0; tries < 1000000 && pending_contexts.size() > 0; ++tries)\n    collectPendingContexts();\n')],
     'an execution that completes long after the program has ended its work', 'its measurement is lost', r'''
  setenv("APOLLO_PERSISTENT_DATASETS", "1", 1);
  int s = child([] { Apollo::Region *r = new Apollo::Region(1, "r", 2, 0, "DecisionTree"); C a = start(*r, 1); r->end(a);
    struct T { static void *f(void *) { sleep(5); done(0, 1); return nullptr; } }; pthread_t t; pthread_create(&t, 0, T::f, 0); });
  std::ifstream f(".apollo/datasets/Dataset-r.yaml"); std::stringstream ss; ss << f.rdbuf();
  if (ss.str().find("features") == std::string::npos) FAIL("not persisted");''')
bug('C18-at-threshold', 'C18', [(PN, "  if (baseline < threshold) return;", "  if (baseline <= threshold) return;")],
    'an average reward exactly at the threshold', 'the network is not trained', r"""
  auto m = mk("PolicyNet", 1, 2, {{"beta", "0.5"}, {"threshold", "0.5"}}); Apollo::Dataset d; ins(d, {1}, 0, 0); ins(d, {2}, 1, 1e6); m->store("a"); m->train(d); m->store("b");
  auto rd = [](const char *n) { std::ifstream f(n, std::ios::binary); std::stringstream s; s << f.rdbuf(); std::string t = s.str(); return t.substr(0, t.size() - 12); };
  if (rd("a") == rd("b")) FAIL("the network was not trained");""")
bug('C21-c-train-many', 'C21', [(AP, '{ r->train(step); }', '{\n  // New data is worth a training.\n  r->train(step, true, r->dataset.size() > 6);\n}')],
    'a trained region with more than six measured pairs trained again through the C interface', 'the frozen model is trained again, unlike in the other interfaces',
    r'''
  Apollo::Region *r = (Apollo::Region *)__apollo_region_create(1, "r", 2, 0, "DecisionTree"); for (int i = 0; i < 8; i++) { V f{float(i)}; ins(r->dataset, f, 0, 1); } __apollo_region_train(r, 0);
  for (int i = 0; i < 8; i++) { V f{float(i)}; ins(r->dataset, f, 1, .1); } __apollo_region_train(r, 1);
  if (pick(*r, {1}) != 0) FAIL("trained again");''', pre=CPRE)
bug('C28-dataset-midrun', 'C28', [(RG, "  model->train(dataset);\n\n  if (Config::APOLLO_RETRAIN_ENABLE)", """  // Keep the measurements should the run not end properly.
  if (Config::APOLLO_PERSISTENT_DATASETS && dataset.size() > 4) {
    std::ofstream ofs(Config::APOLLO_OUTPUT_DIR + "/" +
                      Config::APOLLO_DATASETS_DIR + "/Dataset-" + name +
                      ".yaml");
    ofs.flush();
    model->train(dataset);
    dataset.store(ofs);
  } else
    model->train(dataset);

  if (Config::APOLLO_RETRAIN_ENABLE)""")],
    'persistent datasets with more than four pairs and a program that dies during or right after a training', 'the stored dataset is emptied or truncated', r"""
  setenv("APOLLO_PERSISTENT_DATASETS", "1", 1);
  int s = child([] { auto *r = new Apollo::Region(1, "q", 2, 0, "DecisionTree"); for (int i = 0; i < 6; i++) run(*r, {float(i)}, 1); }); if (s) FAIL("first run");
  auto rd = [] { std::ifstream f(".apollo/datasets/Dataset-q.yaml"); std::stringstream t; t << f.rdbuf(); return t.str(); }; std::string a = rd();
  child([] { auto *r = new Apollo::Region(1, "q", 2, 0, "DecisionTree"); run(*r, {9}, 1); r->train(0); kill(getpid(), SIGKILL); });
  if (rd() != a) FAIL("the stored dataset changed before the end of the run");""", pre='#include <signal.h>\n')
bug('C23-load-leak', 'C23', [(DT, '                        count_per_class);\n\n  tree_nodes.push_back(node);\n  return node;', '                        count_per_class);\n\n  // Inner nodes own their children, register the rest.\n  if (left && right) tree_nodes.push_back(node);\n  return node;')],
    'stored trees loaded again and again', 'the leaves of the loaded trees leak', r'''
  auto m = mk("DecisionTree", 1, 4); Apollo::Dataset d; for (int i = 0; i < 4; i++) ins(d, {float(i)}, i, 1); m->train(d); m->store("a");
  for (int i = 0; i < 20; i++) m->load("a"); size_t a = live(); for (int i = 0; i < 500; i++) m->load("a");
  if (live() > a + 16000) FAIL("grew by %zu bytes", live() - a);''', pre=HEAP)
bug('C27-trace-modulo', 'C27', [(AP, """Config::APOLLO_TRACES_DIR + "/trace-rank-" +
                      std::to_string(mpiRank) + ".csv");""", """Config::APOLLO_TRACES_DIR + "/trace-rank-" +
                      std::to_string(mpiRank % 4) + ".csv");""")],
    'tracing with more than four ranks', 'rank 4 writes over the trace of rank 0',
    r"""  MPI_Init(&argc, &argv); int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank); setenv("APOLLO_TRACE_CSV", "1", 1);
  auto *r = new Apollo::Region(1, "q", 3, 0, "DecisionTree"); run(*r, {float(rank)}, 1); MPI_Barrier(MPI_COMM_WORLD);
  if (!std::ifstream(".apollo/traces/trace-rank-" + std::to_string(rank) + ".csv")) FAIL("no trace of rank %d", rank);
  MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize();""", mpi=1, pre='#include <mpi.h>\n', sh=MPI.replace('-np 3', '-np 6'))

bug('C02-first-decision', 'C02', [(RG, '  context->policy = choice;\n  return choice;', '  // The first decision of an execution is the one that runs.\n  if (context->policy < 0) context->policy = choice;\n  return choice;'),
    (RG, '  context->idx = this->idx;\n', '  context->idx = this->idx;\n  context->policy = -1;\n')],
    'an execution that asks for its policy more than once', 'the measurement is credited to a policy that did not run', r"""
  Apollo::Region r(1, "r", 3, 0, "DecisionTree"); auto *c = r.begin({1}); r.getPolicyIndex(c); int p = r.getPolicyIndex(c); r.end(c, 1.0);
  if (std::get<1>(r.dataset.toVectorOfTuples()[0]) != p) FAIL("credited to policy %d instead of %d", std::get<1>(r.dataset.toVectorOfTuples()[0]), p);""")
gbug('C12-current-moves', 'C12', [(RG, '    if (context->timer->isDone(metric)) {\n', '    if (context->timer->isDone(metric)) {\n      current_context = context;\n')],
     'a pending execution that is collected by a training while another execution is open through the calls without a context', 'the open execution cannot be ended', r"""
  int s = child([] { Apollo::Region *r = new Apollo::Region(1, "r", 2, 0, "DecisionTree"); C a = start(*r, 1); r->end(a); done(0, 1); r->begin(); r->train(0); r->setFeature(2); r->getPolicyIndex(); r->end(); _exit(got(*r, 1) >= 0 ? 0 : 1); });
  if (s) FAIL("status %d", s);""")
bug('C21-c-policy-byte', 'C21', [(AP, '  int policy = r->getPolicyIndex();\n  // std::cout << "GET POLICY', '  unsigned char policy = r->getPolicyIndex();\n  // std::cout << "GET POLICY')],
    'a region with more than 256 policies used through the C interface', 'the C interface returns another policy than the other interfaces', r'''
  Apollo::Region *r = (Apollo::Region *)__apollo_region_create(0, "r", 400, 0, "Static,policy=300"); __apollo_region_begin(r); int p = __apollo_region_get_policy(r); __apollo_region_end(r);
  if (p != 300) FAIL("policy %d", p);''', pre=CPRE)
bug('C11-mpi-both', 'C11', [(AP, '''    std::cerr << "Both collective and local training cannot be enabled"
              << std::endl;
    abort();
''', '''    std::cerr << "Both collective and local training cannot be enabled"
              << ", use collective training" << std::endl;
    Config::APOLLO_LOCAL_TRAINING = 0;
''')], 'an MPI build with collective and local training both enabled', 'the program runs with one of them',
    r"""  MPI_Init(&argc, &argv); setenv("APOLLO_COLLECTIVE_TRAINING", "1", 1); setenv("APOLLO_LOCAL_TRAINING", "1", 1); Apollo::instance(); MPI_Barrier(MPI_COMM_WORLD); { std::ofstream f("started"); } MPI_Finalize();""",
    mpi=1, pre='#include <mpi.h>\n', sh=MPI.replace('[ $rc = 0 ]', '[ ! -e started ]'))

# ---------------------------------------------------------------- C29
with open(_os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), 'harness/pystub/pandas.py')) as _f:
    PANDAS = _f.read()
CD = 'src/python/modeling/create-dataset.py'
TRA = """rankid training region idx f0 policy xtime
0 Static,policy=0 ra 0 1 0 1
0 Static,policy=0 ra 1 1 0 9
0 Static,policy=0 ra 2 2 0 4
"""
TRB = """rankid training region idx f0 policy xtime
0 Static,policy=1 ra 0 1 1 3
0 Static,policy=1 ra 1 1 1 4
"""
TRC = """rankid training region idx f0 f1 policy xtime
0 Static,policy=0 rb 0 1 7 0 2
"""
TRF = {'pandas.py': PANDAS, 'a/trace-Static,policy=0-region-ra-rank-0.csv': TRA, 'b/trace-Static,policy=1-region-ra-rank-0.csv': TRB, 'b/trace-Static,policy=0-region-rb-rank-0.csv': TRC,
       'c/trace-Static,policy=0-region-ra-rank-1.csv': '\n'.join(TRA.splitlines()[:2]).replace('0 1 0 1', '0 1 0 2') + '\n'}


def dbug(id, edits, needs, breaks, agg, args, want):
    bug(id, 'C29', edits, needs, breaks, files=TRF, sh=r"""
cd "$t" || exit 9
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" python3 "$repo/src/python/modeling/create-dataset.py" --agg %s %s > /dev/null || exit 1
cat > want <<'W'
%sW
for r in ra rb; do [ -e Dataset-$r.yaml ] && grep -o 'features.*' Dataset-$r.yaml | tr -d ' {}[]' | sed 's/\.0\b//g' | sort; done > got
cmp got want; exit $?""" % (agg, args, want))


dbug('C29-mean-min', [(CD, "        mean_g = g2['xtime'].mean()\n", "        mean_g = g2['xtime'].min()\n")], 'a policy with the fastest single measurement but not the least mean', 'the policy with the fastest outlier is chosen',
     'mean-min', '--tracedirs "$here/a" "$here/b"', 'features:1,,policy:1,xtime:3.5,\nfeatures:2,,policy:0,xtime:4,\nfeatures:1,7,,policy:0,xtime:2,\n')
dbug('C29-dirs', [(CD, '        data = pd.concat([data, data_dir], ignore_index=True, sort=False)\n', '        data = data_dir if len(data) <= len(data_dir) else data\n')], 'traces in several directories', 'only one directory is used',
     'mean', '--tracedirs "$here/a" "$here/b"', 'features:1,,policy:0,xtime:5,\nfeatures:1,,policy:1,xtime:3.5,\nfeatures:2,,policy:0,xtime:4,\nfeatures:1,7,,policy:0,xtime:2,\n')
dbug('C29-mean-rows', [(CD, "    groups = data_per_region.groupby(by=feature_cols + ['policy'])\n", "    data_per_region = data_per_region.drop_duplicates(subset=feature_cols + ['policy', 'idx'])\n    groups = data_per_region.groupby(by=feature_cols + ['policy'])\n")],
     'a feature vector and policy measured at the same execution number of two traces', 'measurements are left out of the mean',
     'mean', '--tracedirs "$here/c" "$here/a"', 'features:1,,policy:0,xtime:4,\nfeatures:2,,policy:0,xtime:4,\n')

# ---------------------------------------------------------------- magnitudes, later strengthenings
bug('C26-cap', 'C26', [(RX, 'range(0, args.npolicies)', 'range(0, min(args.npolicies, 64))')], 'more than 64 policies', 'the policies above 63 are not measured',
    sh=SHX + 'python3 "$repo/src/python/analysis/run-exhaustive.py" -n 66 -x "sh p.sh" > /dev/null 2>&1 || exit 1\n[ "$(wc -l < log)" = 67 ] && grep -q policy=65 log; exit $?')
bug('C08-word', 'C08', [(PA, '  val = std::strtod(token, &end);\n  if (end == token) error("Expected a number");\n', '  val = std::strtod(token, &end);\n')], 'a word in place of a number of a stored file', 'the word is taken for 0',
    r'''  int s = child([] { std::istringstream is("data: {\n  0: { features: [ 1, ], policy: 0, xtime: zzz },\n}\n"); Apollo::Dataset d; d.load(is); });
  if (WIFEXITED(s) && WEXITSTATUS(s) == 0) FAIL("accepted");''')
bug('C06-digits', 'C06', [(DT, '  ofs.precision(std::numeric_limits<float>::max_digits10);', '  ofs.precision(std::numeric_limits<float>::max_digits10 - 1);')], 'a threshold that needs nine digits, e.g. between 1000 and 1024', 'the stored tree splits at another value',
    r'''  for (int i = 0; i < 64; i++) { float a = 1000.0f + i * 0.00006103515625f, b = a + 0.00006103515625f; Apollo::Dataset d; ins(d, {a}, 0, 1); ins(d, {b}, 1, 1);
    auto m = mk("DecisionTree", 1, 2), n = mk("DecisionTree", 1, 2); m->train(d); m->store("t"); n->load("t"); V x{a}, y{b};
    if (m->getIndex(x) != n->getIndex(x) || m->getIndex(y) != n->getIndex(y)) FAIL("loaded tree decides otherwise at %.9g", a); }''')
bug('C09-mtd-short', 'C09', [(RG, '  } else if (0 < min_training_data && min_training_data <= dataset.size())', '  } else if (0 < (short)min_training_data && min_training_data <= dataset.size())')], 'a minimum of 32768 or more training data', 'the region is never trained',
    r'''  Apollo::Region r(1, "r", 33000, 33000, "DecisionTree,explore=RoundRobin"); for (int i = 0; i < 33000; i++) { if (!r.model->isTrainable()) FAIL("trained at %d", i); run(r, {1}, 1); }
  if (r.model->isTrainable()) FAIL("not trained");''')
bug('C15-clear', 'C15', [(RG, '    model->store(filename);\n    filename =', '    model->store(filename);\n    // Long runs: the stored model has the information.\n    if (step > 100000) dataset.clear();\n    filename =')], 'model storing and a training step above 100000', 'storing the model drops measurements',
    r'''  setenv("APOLLO_STORE_MODELS", "1", 1); Apollo::Region r(1, "r", 2, 0, "PolicyNet"); run(r, {1}, 1); run(r, {2}, 1); r.train(200000); if (r.dataset.size() != 2) FAIL("%zu entries", r.dataset.size());''')
bug('C25-version', 'C25', [(AP, '  module_name = module_name.substr(module_name.find_last_of("/\\\\") + 1);', '  module_name = module_name.substr(module_name.find_last_of("/\\\\") + 1);\n  // Drop the version of a library.\n  module_name = module_name.substr(0, module_name.find(".so."));')], 'a call site in a library with a version number',
    'the identifier does not have the file name', r'''  std::ofstream("m.c") << "typedef void (*F)(void *);\nvoid hop(F f, void *a) { f(a); __asm__ volatile(\"nop\" ::: \"memory\"); }\n";
  if (system("gcc -O0 -shared -fPIC m.c -o libm1.so.2")) _exit(9);
  void *h = dlopen("./libm1.so.2", RTLD_NOW); if (!h) _exit(9);
  auto hop = (void (*)(void (*)(void *), void *))dlsym(h, "hop");
  std::string id;
  hop(cb25, &id);
  if (id.compare(0, 12, "libm1.so.2@0") != 0) FAIL("%s", id.c_str());''', pre=PRE25 + 'static void cb25(void *p) { *(std::string *)p = Apollo::instance()->getCallpathOffset(3); }\n')
bug('C11-beta-zero', 'C11', [(MF, '    if (it != model_params.end()) beta2 = std::stod(it->second);', '    if (it != model_params.end() && std::stod(it->second) > 0.0)\n      beta2 = std::stod(it->second);')], 'PolicyNet with beta2=0', 'the default is used instead',
    r'''  auto m = mk("PolicyNet", 1, 2); m->store("init");
  Apollo::Dataset a, b; ins(a, {3}, 0, .1); ins(a, {3}, 1, 2); ins(b, {3}, 0, 2); ins(b, {3}, 1, .1);
  std::string out[2]; int i = 0;
  for (const char *be : {"0.9", "0"}) { auto n = mk("PolicyNet", 1, 2, {{"beta2", be}}); n->load("init"); n->train(a); n->train(b); n->store("o"); std::ifstream f("o", std::ios::binary); std::stringstream s; s << f.rdbuf(); out[i++] = s.str(); }
  if (out[0] == out[1]) FAIL("beta2=0 has no effect");''')
bug('C14-mod', 'C14', [(RG, '                        << " " << context->policy << "\\n";\n', '                        << " " << context->policy % 1000 << "\\n";\n')], 'policies of 1000 and above', 'the global trace shows another policy',
    r'''  setenv("APOLLO_TRACE_CSV", "1", 1); int s = child([] { auto *r = new Apollo::Region(1, "r", 3000, 0, "Static,policy=2345"); run(*r, {1}, 1); exit(0); });
  std::ifstream f(".apollo/traces/trace-rank-0.csv"); std::string l, w; while (std::getline(f, l)) w = l; if (w.size() < 4 || w.substr(w.size() - 4) != "2345") FAIL("status %d: %s", s, w.c_str());''')
