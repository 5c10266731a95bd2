// C26: configurations. Every preset, every option with every enumerated value and a menu of numbers: exactly one
// field of the context changes; dumping and loading (over any preset) reproduces every field; names, tables and
// help texts agree; the program itself dumps, loads and then behaves the same.
#include "kaminpar-cli/kaminpar_arguments.h"

#include "kaminpar-shm/context_io.h"
#include "kaminpar-shm/kaminpar.h"

#include "text.h"

int kaminpar_main(int argc, char **argv);

using namespace kv;
namespace shm = kaminpar::shm;
using shm::Context;

namespace {
// ------------------------------------------------------------------ every setting, by name
using Fields = std::map<std::string, std::string>;
template <typename T> std::string show(const T &v) {
  if constexpr (std::is_floating_point_v<T>) {
    char b[64];
    snprintf(b, sizeof b, "%a", static_cast<double>(v));
    return b;
  } else if constexpr (std::is_enum_v<T>) {
    return "#" + std::to_string(static_cast<int>(v));
  } else if constexpr (std::is_same_v<T, std::string>) {
    return "'" + v + "'";
  } else if constexpr (std::is_arithmetic_v<T>) {
    return std::to_string(v);
  } else {
    std::string s = "[";
    for (auto &x : v) s += show(x) + ",";
    return s + "]";
  }
}
Fields fields(const Context &c) {
  Fields f;
#define F(x) f[#x] = show(c.x)
  F(compression.enabled), F(node_ordering), F(edge_ordering);
  F(partitioning.mode), F(partitioning.deep_initial_partitioning_mode), F(partitioning.deep_initial_partitioning_load), F(partitioning.min_consecutive_seq_bipartitioning_levels), F(partitioning.refine_after_extending_partition),
      F(partitioning.use_lazy_subgraph_memory), F(partitioning.vcycles), F(partitioning.restrict_vcycle_refinement), F(partitioning.rb_enable_kway_toplevel_refinement);
  F(coarsening.algorithm), F(coarsening.contraction_limit), F(coarsening.convergence_threshold);
  F(coarsening.clustering.algorithm), F(coarsening.clustering.cluster_weight_limit), F(coarsening.clustering.cluster_weight_multiplier), F(coarsening.clustering.shrink_factor), F(coarsening.clustering.max_mem_free_coarsening_level),
      F(coarsening.clustering.forced_kc_level), F(coarsening.clustering.forced_pc_level), F(coarsening.clustering.forced_level_upper_factor), F(coarsening.clustering.forced_level_lower_factor);
  F(coarsening.clustering.lp.num_iterations), F(coarsening.clustering.lp.large_degree_threshold), F(coarsening.clustering.lp.max_num_neighbors), F(coarsening.clustering.lp.impl), F(coarsening.clustering.lp.relabel_before_second_phase),
      F(coarsening.clustering.lp.two_hop_strategy), F(coarsening.clustering.lp.two_hop_threshold), F(coarsening.clustering.lp.isolated_nodes_strategy), F(coarsening.clustering.lp.tie_breaking_strategy);
  F(coarsening.contraction.algorithm), F(coarsening.contraction.unbuffered_implementation), F(coarsening.contraction.edge_buffer_fill_fraction);
#define IR(r) F(initial_partitioning.r.disabled), F(initial_partitioning.r.stopping_rule), F(initial_partitioning.r.num_fruitless_moves), F(initial_partitioning.r.alpha), F(initial_partitioning.r.num_iterations), F(initial_partitioning.r.improvement_abortion_threshold)
  IR(refinement), IR(pool.refinement);
  F(initial_partitioning.coarsening.contraction_limit), F(initial_partitioning.coarsening.convergence_threshold), F(initial_partitioning.coarsening.large_degree_threshold), F(initial_partitioning.coarsening.cluster_weight_limit),
      F(initial_partitioning.coarsening.cluster_weight_multiplier);
  F(initial_partitioning.pool.repetition_multiplier), F(initial_partitioning.pool.min_num_repetitions), F(initial_partitioning.pool.min_num_non_adaptive_repetitions), F(initial_partitioning.pool.max_num_repetitions),
      F(initial_partitioning.pool.num_seed_iterations), F(initial_partitioning.pool.use_adaptive_bipartitioner_selection), F(initial_partitioning.pool.enable_bfs_bipartitioner), F(initial_partitioning.pool.enable_ggg_bipartitioner),
      F(initial_partitioning.pool.enable_random_bipartitioner);
  F(initial_partitioning.refine_pool_partition), F(initial_partitioning.use_adaptive_epsilon);
  F(refinement.algorithms);
  F(refinement.lp.num_iterations), F(refinement.lp.large_degree_threshold), F(refinement.lp.max_num_neighbors), F(refinement.lp.impl), F(refinement.lp.tie_breaking_strategy);
  F(refinement.kway_fm.num_seed_nodes), F(refinement.kway_fm.alpha), F(refinement.kway_fm.num_iterations), F(refinement.kway_fm.unlock_locally_moved_nodes), F(refinement.kway_fm.unlock_seed_nodes), F(refinement.kway_fm.use_exact_abortion_threshold),
      F(refinement.kway_fm.abortion_threshold), F(refinement.kway_fm.gain_cache_strategy), F(refinement.kway_fm.constant_high_degree_threshold), F(refinement.kway_fm.k_based_high_degree_threshold), F(refinement.kway_fm.minimal_parallelism),
      F(refinement.kway_fm.dbg_compute_batch_stats), F(refinement.kway_fm.dbg_report_progress);
  F(refinement.jet.num_iterations), F(refinement.jet.num_fruitless_iterations), F(refinement.jet.fruitless_threshold), F(refinement.jet.num_rounds_on_fine_level), F(refinement.jet.num_rounds_on_coarse_level),
      F(refinement.jet.initial_gain_temp_on_fine_level), F(refinement.jet.final_gain_temp_on_fine_level), F(refinement.jet.initial_gain_temp_on_coarse_level), F(refinement.jet.final_gain_temp_on_coarse_level), F(refinement.jet.balancing_algorithm);
  F(refinement.mtkahypar.config_filename), F(refinement.mtkahypar.coarse_config_filename), F(refinement.mtkahypar.fine_config_filename);
  F(parallel.num_threads);
  F(debug.graph_name), F(debug.dump_graph_filename), F(debug.dump_partition_filename), F(debug.dump_toplevel_graph), F(debug.dump_toplevel_partition), F(debug.dump_coarsest_graph), F(debug.dump_coarsest_partition), F(debug.dump_graph_hierarchy),
      F(debug.dump_partition_hierarchy);
  return f;
}
std::string diff(const Fields &a, const Fields &b) {
  std::string s;
  auto at = [](const Fields &f, const std::string &k) { return f.count(k) ? f.at(k) : std::string("missing"); };
  for (auto &[k, v] : a)
    if (at(b, k) != v) s += " " + k + ": " + v + " -> " + at(b, k);
  for (auto &[k, v] : b)
    if (!a.count(k)) s += " " + k + ": missing -> " + v;
  return s;
}

// the settings of a dump
Fields settings(const std::string &dump) {
  Fields f;
  std::stringstream in(dump);
  for (std::string l; std::getline(in, l);)
    if (!l.empty() && l[0] != '#' && l.find('=') != std::string::npos) f[l.substr(0, l.find('='))] = l.substr(l.find('=') + 1);
  return f;
}

// ------------------------------------------------------------------ the options, as documented
struct Opt {
  std::string name, field;
  std::vector<std::pair<std::string, std::string>> values; // argument (empty: a flag without one), value of the field
};
template <typename T> void names(const std::unordered_map<std::string, T> &table, const std::string &what) {
  for (auto &[name, v] : table) {
    std::stringstream s;
    s << v;
    MC_CHECK(table.count(s.str()) && table.at(s.str()) == v, "the name " + name + " of " + what + " is printed as " + s.str());
    for (auto &[other, w] : table) // different values do not share a printed name
      if (w != v) {
        std::stringstream t;
        t << w;
        MC_CHECK(t.str() != s.str(), "two values of " + what + " are printed as " + s.str());
      }
  }
}
std::vector<Opt> options() {
  std::vector<Opt> v;
  auto table = [&](const std::string &name, const std::string &field, const auto &t) {
    Opt o{name, field, {}};
    for (auto &[k, x] : std::map<std::string, typename std::decay_t<decltype(t)>::mapped_type>(t.begin(), t.end())) o.values.push_back({k, show(x)});
    v.push_back(o);
  };
  auto flag = [&](const std::string &name, const std::string &field, bool to = true) {
    v.push_back({name, field, {{"", show(to)}}});
    if (name[1] == '-') v.back().values.push_back({"=true", show(to)}), v.back().values.push_back({"=false", show(!to)});
  };
  auto boolean = [&](const std::string &name, const std::string &field) { v.push_back({name, field, {{"1", "1"}, {"0", "0"}, {"true", "1"}, {"false", "0"}}}); };
  auto whole = [&](const std::string &name, const std::string &field, bool wide) {
    Opt o{name, field, {{"0", "0"}, {"1", "1"}, {"7", "7"}, {"2147483647", "2147483647"}}};
    if (wide) o.values.push_back({"4294967295", "4294967295"});
    v.push_back(o);
  };
  auto real = [&](const std::string &name, const std::string &field) {
    Opt o{name, field, {}};
    for (const double x : {0.0, 1.0, 0.25, 12.0, 0.123456789, 1.0 / 3.0, 1e-7, 123456789.25, std::numeric_limits<double>::max()}) {
      char b[64];
      snprintf(b, sizeof b, "%.17g", x);
      o.values.push_back({b, show(x)});
    }
    v.push_back(o);
  };
  auto string = [&](const std::string &name, const std::string &field) { v.push_back({name, field, {{"x", "'x'"}, {"/a b/c%n.metis", "'/a b/c%n.metis'"}, {"1", "'1'"}, {"true", "'true'"}}}); };
  flag("-c", "compression.enabled"), flag("--compress", "compression.enabled");
  table("--node-order", "node_ordering", shm::get_node_orderings()), table("--edge-order", "edge_ordering", shm::get_edge_orderings());
  table("-m", "partitioning.mode", shm::get_partitioning_modes()), table("--p-mode", "partitioning.mode", shm::get_partitioning_modes());
  table("--p-deep-initial-partitioning-mode", "partitioning.deep_initial_partitioning_mode", shm::get_initial_partitioning_modes());
  real("--p-deep-initial-partitioning-load", "partitioning.deep_initial_partitioning_load");
  whole("--p-min-consecutive-seq-bipartitioning-levels", "partitioning.min_consecutive_seq_bipartitioning_levels", false);
  boolean("--p-lazy-extract-subgraph-memory", "partitioning.use_lazy_subgraph_memory");
  flag("--p-refine-after-extending", "partitioning.refine_after_extending_partition"), flag("--p-rb-kway-toplevel-refinement", "partitioning.rb_enable_kway_toplevel_refinement");
  v.push_back({"--p-vcycles", "partitioning.vcycles", {{"4", "[4,]"}, {"2 8", "[2,8,]"}, {"2 4 8", "[2,4,8,]"}}});
  flag("--p-restrict-vcycle-refinement", "partitioning.restrict_vcycle_refinement");
  table("--c-algorithm", "coarsening.algorithm", shm::get_coarsening_algorithms());
  whole("--c-contraction-limit", "coarsening.contraction_limit", true), real("--c-convergence-threshold", "coarsening.convergence_threshold"), real("--c-shrink-factor", "coarsening.clustering.shrink_factor");
  table("--c-clustering-algorithm", "coarsening.clustering.algorithm", shm::get_clustering_algorithms()), table("--c-cluster-weight-limit", "coarsening.clustering.cluster_weight_limit", shm::get_cluster_weight_limits());
  real("--c-cluster-weight-multiplier", "coarsening.clustering.cluster_weight_multiplier"), whole("--c-max-memory-free-coarsening-level", "coarsening.clustering.max_mem_free_coarsening_level", true);
  flag("--c-forced-kc-level", "coarsening.clustering.forced_kc_level"), flag("--c-forced-pc-level", "coarsening.clustering.forced_pc_level");
  real("--c-forced-level-upper-factor", "coarsening.clustering.forced_level_upper_factor"), real("--c-forced-level-lower-factor", "coarsening.clustering.forced_level_lower_factor");
  whole("--c-lp-num-iterations", "coarsening.clustering.lp.num_iterations", true), whole("--c-lp-active-large-degree-threshold", "coarsening.clustering.lp.large_degree_threshold", true);
  whole("--c-lp-max-num-neighbors", "coarsening.clustering.lp.max_num_neighbors", true), table("--c-lp-tie-breaking-strategy", "coarsening.clustering.lp.tie_breaking_strategy", shm::get_tie_breaking_strategies());
  table("--c-lp-impl", "coarsening.clustering.lp.impl", shm::get_lp_implementations()), boolean("--c-lp-second-phase-relabel", "coarsening.clustering.lp.relabel_before_second_phase");
  table("--c-lp-two-hop-strategy", "coarsening.clustering.lp.two_hop_strategy", shm::get_two_hop_strategies()), real("--c-lp-two-hop-threshold", "coarsening.clustering.lp.two_hop_threshold");
  table("--c-lp-isolated-nodes-strategy", "coarsening.clustering.lp.isolated_nodes_strategy", shm::get_isolated_nodes_clustering_strategies());
  table("--c-contraction-algorithm", "coarsening.contraction.algorithm", shm::get_contraction_algorithms()), table("--c-contraction-unbuffered-impl", "coarsening.contraction.unbuffered_implementation", shm::get_contraction_implementations());
  real("--c-con-edge-buffer-fill-fraction", "coarsening.contraction.edge_buffer_fill_fraction");
  flag("--i-r-disable", "initial_partitioning.refinement.disabled"), flag("--i-adaptive-epsilon", "initial_partitioning.use_adaptive_epsilon");
  table("--r-algorithms", "refinement.algorithms", shm::get_kway_refinement_algorithms());
  for (auto &[k, x] : v.back().values) x = "[" + x + ",]";
  v.back().values.push_back({"lp fm", "[" + show(shm::RefinementAlgorithm::LABEL_PROPAGATION) + "," + show(shm::RefinementAlgorithm::KWAY_FM) + ",]"});
  v.back().values.push_back({"greedy-balancer jet greedy-balancer", "[" + show(shm::RefinementAlgorithm::GREEDY_BALANCER) + "," + show(shm::RefinementAlgorithm::JET) + "," + show(shm::RefinementAlgorithm::GREEDY_BALANCER) + ",]"});
  whole("--r-lp-num-iterations", "refinement.lp.num_iterations", true), whole("--r-lp-active-large-degree-threshold", "refinement.lp.large_degree_threshold", true), whole("--r-lp-max-num-neighbors", "refinement.lp.max_num_neighbors", true);
  table("--r-lp-impl", "refinement.lp.impl", shm::get_lp_implementations()), table("--r-lp-tie-breaking-strategy", "refinement.lp.tie_breaking_strategy", shm::get_tie_breaking_strategies());
  whole("--r-fm-num-iterations", "refinement.kway_fm.num_iterations", false), whole("--r-fm-num-seed-nodes", "refinement.kway_fm.num_seed_nodes", true), real("--r-fm-abortion-threshold", "refinement.kway_fm.abortion_threshold");
  v.push_back({"--r-fm-lock-locally-moved-nodes", "refinement.kway_fm.unlock_locally_moved_nodes", {{"", "0"}}}), v.push_back({"--r-fm-unlock-locally-moved-nodes", "refinement.kway_fm.unlock_locally_moved_nodes", {{"", "1"}}});
  v.push_back({"--r-fm-lock-seed-nodes", "refinement.kway_fm.unlock_seed_nodes", {{"", "0"}}}), v.push_back({"--r-fm-unlock-seed-nodes", "refinement.kway_fm.unlock_seed_nodes", {{"", "1"}}});
  table("--r-fm-gc", "refinement.kway_fm.gain_cache_strategy", shm::get_gain_cache_strategies()), whole("--r-fm-gc-const-hd-threshold", "refinement.kway_fm.constant_high_degree_threshold", true), real("--r-fm-gc-k-based-hd-threshold", "refinement.kway_fm.k_based_high_degree_threshold");
  whole("--r-fm-minimal-parallelism-pm", "refinement.kway_fm.minimal_parallelism", false), flag("--r-fm-dbg-batch-stats", "refinement.kway_fm.dbg_compute_batch_stats"), flag("--r-fm-dbg-report-progress", "refinement.kway_fm.dbg_report_progress");
  whole("--r-jet-num-iterations", "refinement.jet.num_iterations", false), whole("--r-jet-num-fruitless-iterations", "refinement.jet.num_fruitless_iterations", false), real("--r-jet-fruitless-threshold", "refinement.jet.fruitless_threshold");
  whole("--r-jet-num-rounds-on-fine-level", "refinement.jet.num_rounds_on_fine_level", false), whole("--r-jet-num-rounds-on-coarse-level", "refinement.jet.num_rounds_on_coarse_level", false);
  for (const std::string l : {"fine", "coarse"})
    for (const std::string e : {"initial", "final"}) real("--r-jet-" + e + "-gain-temp-on-" + l + "-level", "refinement.jet." + e + "_gain_temp_on_" + l + "_level");
  string("--r-mtkahypar-config", "refinement.mtkahypar.config_filename"), string("--r-mtkahypar-config-fine", "refinement.mtkahypar.fine_config_filename"), string("--r-mtkahypar-config-coarse", "refinement.mtkahypar.coarse_config_filename");
  string("--d-dump-graph-filename", "debug.dump_graph_filename"), string("--d-dump-partition-filename", "debug.dump_partition_filename");
  flag("--d-dump-toplevel-graph", "debug.dump_toplevel_graph"), flag("--d-dump-toplevel-partition", "debug.dump_toplevel_partition"), flag("--d-dump-coarsest-graph", "debug.dump_coarsest_graph");
  flag("--d-dump-coarsest-partition", "debug.dump_coarsest_partition"), flag("--d-dump-graph-hierarchy", "debug.dump_graph_hierarchy"), flag("--d-dump-partition-hierarchy", "debug.dump_partition_hierarchy");
  return v;
}
std::vector<std::string> split(const std::string &s) {
  std::vector<std::string> r;
  std::stringstream in(s);
  for (std::string x; in >> x;) r.push_back(x);
  return r;
}
// the arguments `--name value`; lists are several values, strings are one argument even with blanks in them
std::vector<std::string> arguments(const Opt &o, const std::string &value) {
  if (value.empty()) return {o.name};
  if (value[0] == '=') return {o.name + value};
  if (o.field.find("filename") != std::string::npos) return {o.name, value};
  std::vector<std::string> a = split(value);
  a.insert(a.begin(), o.name);
  return a;
}
void parse(CLI::App &cli, std::vector<std::string> args, const std::string &at) {
  std::reverse(args.begin(), args.end());
  try {
    cli.parse(args);
  } catch (const CLI::Error &e) {
    mc::fail("rejected: " + std::string(e.what()) + at);
  }
}
std::string dump(Context c) {
  CLI::App cli;
  shm::create_all_options(&cli, c);
  return cli.config_to_str(true, true);
}
Fields load(const std::string &dumped, Context over, const std::string &at) {
  files::put(files::path("conf"), dumped);
  CLI::App cli;
  cli.set_config("-C,--config", "", "", false);
  shm::create_all_options(&cli, over);
  parse(cli, {"-C", files::path("conf")}, at);
  return fields(over);
}
std::vector<std::string> preset_names() {
  const auto s = shm::get_preset_names();
  std::vector<std::string> v(s.begin(), s.end());
  std::sort(v.begin(), v.end());
  return v;
}
// all fields some option sets
std::set<std::string> exposed() {
  std::set<std::string> s;
  for (auto &o : options()) s.insert(o.field);
  return s;
}
void reproduces(const Fields &want, const std::string &dumped, const Context &over, const std::string &at) {
  const Fields got = load(dumped, over, at), base = fields(over);
  static const std::set<std::string> e = exposed();
  for (auto &[k, v] : want) {
    if (v == "[]" && base.at(k) == got.at(k)) continue; // empty lists are not dumped; the preset restores them
    if (e.count(k)) MC_CHECK(got.at(k) == v, k + " was " + v + ", reads back as " + got.at(k) + at);
    else MC_CHECK(got.at(k) == base.at(k), k + " changed although no option sets it" + at);
  }
}

} // namespace

void mc_main() {
  mc::run("names", [] {
    names(shm::get_node_orderings(), "the vertex ordering"), names(shm::get_edge_orderings(), "the edge ordering"), names(shm::get_coarsening_algorithms(), "the coarsening algorithm"), names(shm::get_clustering_algorithms(), "the clustering algorithm");
    names(shm::get_cluster_weight_limits(), "the cluster weight limit"), names(shm::get_lp_implementations(), "the label propagation"), names(shm::get_kway_refinement_algorithms(), "the refinement algorithm"), names(shm::get_fm_stopping_rules(), "the stopping rule");
    names(shm::get_partitioning_modes(), "the mode"), names(shm::get_initial_partitioning_modes(), "the initial partitioning mode"), names(shm::get_tie_breaking_strategies(), "the tie breaking"), names(shm::get_gain_cache_strategies(), "the gain cache");
    names(shm::get_two_hop_strategies(), "the two-hop strategy"), names(shm::get_isolated_nodes_clustering_strategies(), "the isolated vertices strategy"), names(shm::get_contraction_algorithms(), "the contraction"),
        names(shm::get_contraction_implementations(), "the contraction implementation");
    mc::count_case();
  });
  mc::run("presets", [] {
    MC_CHECK(preset_names().size() >= 15, "presets are missing");
    for (auto &n : preset_names()) {
      const Fields a = fields(shm::create_context_by_preset_name(n)), b = fields(shm::create_context_by_preset_name(n));
      MC_CHECK(a == b, "two instances of preset " + n + " differ:" + diff(a, b));
      mc::count_case();
    }
    for (const std::string n : {"", "Default", "default ", "nosuch", "terapart-fast"}) {
      bool thrown = false;
      try {
        shm::create_context_by_preset_name(n);
      } catch (const std::exception &) {
        thrown = true;
      }
      MC_CHECK(thrown, "the preset name '" + n + "' is accepted");
    }
  });
  // every option of the program is known to this check, so that none escapes it
  mc::run("complete", [] {
    Context c = shm::create_default_context();
    CLI::App cli;
    shm::create_all_options(&cli, c);
    std::set<std::string> known;
    for (auto &o : options()) known.insert(o.name);
    for (auto &o : options()) {
      const CLI::Option *x = nullptr;
      for (const CLI::Option *y : cli.get_options([](const CLI::Option *) { return true; }))
        if (y->check_name(o.name)) x = y;
      for (const CLI::App *s : cli.get_subcommands([](const CLI::App *) { return true; }))
        for (const CLI::Option *y : s->get_options([](const CLI::Option *) { return true; }))
          if (y->check_name(o.name)) {
            MC_CHECK(x == nullptr || x == y, "the name " + o.name + " belongs to two options");
            x = y;
          }
      MC_CHECK(x != nullptr, "there is no option " + o.name);
      mc::count_case();
    }
  });
  // values in help texts are accepted
  mc::run("help", [] {
    Context c = shm::create_default_context();
    CLI::App cli;
    shm::create_all_options(&cli, c);
    int listed = 0;
    std::vector<const CLI::App *> apps = {&cli};
    for (size_t i = 0; i < apps.size(); ++i) {
      for (const CLI::App *s : apps[i]->get_subcommands([](const CLI::App *) { return true; })) apps.push_back(s);
      for (const CLI::Option *y : apps[i]->get_options([](const CLI::Option *) { return true; })) {
        std::stringstream d(y->get_description());
        for (std::string l; std::getline(d, l);) {
          if (l.rfind("  - ", 0) != 0 || l.find(':') == std::string::npos) continue;
          const std::string value = l.substr(4, l.find(':') - 4), name = y->get_name().substr(0, y->get_name().find(','));
          Context c2 = shm::create_default_context();
          CLI::App again;
          shm::create_all_options(&again, c2);
          parse(again, {name, value}, " [" + name + " " + value + ", which is listed in the help]");
          ++listed;
          mc::count_case();
        }
      }
    }
    MC_CHECK(listed > 20, "no values found in the help texts");
  });
  const auto opts = options();
  const auto names = preset_names();
  for (const std::string &p : names)
    mc::run("options/" + p, [&, p] {
      const Opt &o = opts[static_cast<size_t>(mc::choose(static_cast<int>(opts.size())))];
      const Context base = shm::create_context_by_preset_name(p);
      for (auto &[value, want] : o.values) {
        Context c = base;
        const auto args = arguments(o, value);
        const std::string at = " [" + p + text::joined(args) + "]";
        CLI::App cli;
        shm::create_all_options(&cli, c);
        parse(cli, args, at);
        Fields f = fields(c), b = fields(base);
        MC_CHECK(f.count(o.field), "no field " + o.field);
        MC_CHECK(f[o.field] == want, o.field + " is " + f[o.field] + " instead of " + want + at);
        b[o.field] = want;
        MC_CHECK(f == b, "other settings changed:" + diff(b, f) + at);
        // dump and load over this and other presets
        const std::string text = dump(c);
        reproduces(f, text, base, at + " loaded over " + p);
        for (auto &q : mc::thorough() ? names : std::vector<std::string>{"default", "jet", "restricted-vcycle"}) reproduces(f, text, shm::create_context_by_preset_name(q), at + " loaded over " + q);
        mc::count_case();
      }
    });
  // pairs of options that change two fields
  mc::run("pairs", [&] {
    const size_t i = static_cast<size_t>(mc::choose(static_cast<int>(opts.size())));
    for (size_t j = 0; j < opts.size(); ++j) {
      const Opt &a = opts[i], &b = opts[j];
      if (a.field == b.field) continue;
      Context c = shm::create_default_context();
      auto args = arguments(a, a.values.back().first), more = arguments(b, b.values.back().first);
      args.insert(args.end(), more.begin(), more.end());
      const std::string at = " [" + text::joined(args) + "]";
      CLI::App cli;
      shm::create_all_options(&cli, c);
      parse(cli, args, at);
      Fields f = fields(c), want = fields(shm::create_default_context());
      want[a.field] = a.values.back().second, want[b.field] = b.values.back().second;
      MC_CHECK(f == want, "settings differ:" + diff(want, f) + at);
      reproduces(f, dump(c), shm::create_default_context(), at);
      mc::count_case();
    }
  });
  // ---- the program
  for (const std::string &p : names)
    for (int part = 0; part < 4; ++part)
    mc::run("program/" + p + "/" + std::to_string(part), [&, p, part] {
      std::vector<std::vector<std::string>> jobs;
      jobs.push_back({"-P", p});
      std::vector<std::string> sets = {""};
      for (size_t i = 0; i < opts.size(); ++i)
        if (static_cast<int>(i % 4) == part)
          for (auto &[value, want] : opts[i].values) {
            if (!mc::thorough() && p != "default" && p != "restricted-vcycle" && value != opts[i].values.back().first) continue;
            auto a = arguments(opts[i], value);
            a.insert(a.end(), {"-P", p}); // the preset does not override options, whatever the order
            jobs.push_back(a), sets.push_back(opts[i].field);
          }
      const int n = static_cast<int>(jobs.size());
      auto dumps = [](std::vector<std::string> a) {
        a.push_back("--dump-config");
        return text::program(kaminpar_main, a);
      };
      auto ok = [](const files::Outcome &o, const std::string &at) {
        MC_CHECK(o.done || o.signal == 0, "the program failed: " + o.str() + at);
        if (!o.done) {
          MC_CHECK(o.code == 0, "the program ends with exit code " + std::to_string(o.code) + " " + o.text.substr(0, 300) + at);
          return o.all;
        }
        MC_CHECK(o.text.rfind("0\n", 0) == 0, "the program ends with exit code " + o.text.substr(0, 300) + at);
        return o.text.substr(2);
      };
      auto at = [&](int i) { return " [" + text::joined(jobs[static_cast<size_t>(i)]) + " --dump-config]"; };
      const auto one = files::children(n, [&](int i) { return dumps(jobs[static_cast<size_t>(i)]); });
      std::vector<std::string> dumped;
      for (int i = 0; i < n; ++i) dumped.push_back(ok(one[static_cast<size_t>(i)], at(i)));
      // loading it gives the same configuration; options on the command line win over the file
      for (const bool with : {false, true}) {
        const auto two = files::children(n, [&](int i) {
          files::put(files::path("conf"), dumped[static_cast<size_t>(with ? n - 1 - i : i)]);
          std::vector<std::string> a = jobs[static_cast<size_t>(i)];
          if (with) a.resize(a.size() - 2); // without the preset
          else a.clear();
          a.insert(a.end(), {"-C", files::path("conf")});
          return dumps(a);
        });
        for (int i = 0; i < n; ++i) {
          const auto got = settings(ok(two[static_cast<size_t>(i)], at(i) + ", loaded"));
          auto want = settings(dumped[static_cast<size_t>(i)]);
          if (with) {
            const auto plain = settings(dumped[0]), changed = want;
            if (sets[static_cast<size_t>(i)] == sets[static_cast<size_t>(n - 1 - i)]) continue;
            want = settings(dumped[static_cast<size_t>(n - 1 - i)]);
            for (auto &[k, v] : changed)
              if (!plain.count(k) || plain.at(k) != v) want[k] = v;
          }
          MC_CHECK(got == want, "dumped again after loading" + (with ? " the dump of " + text::joined(jobs[static_cast<size_t>(n - 1 - i)]) : std::string()) + ":" + diff(want, got) + at(i));
          mc::count_case();
        }
      }
      // the program behaves the same
      if (part != 0) return;
      const std::vector<RefGraph> graphs = {with_weights(scattered(prand(60, 5, 3)), 3), with_weights(scattered(grid(9, 9)), 0), scattered(caveman(5, 6))};
      for (const RefGraph &g : graphs)
        for (const std::string k : {"2", "4", "8"})
          for (const std::string seed : {"0", "1", "2"}) {
            std::vector<std::string> run = {"-G", files::path("in"), "-k", k, "-s", seed, "-q", "-o", files::path("part")};
            if (p.find("vcycle") != std::string::npos) run.insert(run.end(), {"--p-vcycles", k});
            const auto r = files::children(2, [&](int i) {
              files::put(files::path("in"), text::metis(g));
              files::put(files::path("conf"), dumped[0]);
              std::vector<std::string> a = run;
              if (i == 0) a.insert(a.end(), {"-P", p});
              else a.insert(a.end(), {"-C", files::path("conf")});
              const std::string s = text::program(kaminpar_main, a);
              return s[0] == '0' ? "0\n" + files::get(files::path("part")) : s;
            });
            const std::string w = " [" + p + text::joined(run) + " " + g.name + "]";
            const std::string x = ok(r[0], w), y = ok(r[1], w + " from the dumped configuration");
            MC_CHECK(static_cast<int>(text::numbers(x, "the partition").size()) == g.n(), "no partition" + w);
            MC_CHECK(x == y, "the partitions differ: " + x + " and " + y + w);
            mc::count_case();
          }
    });
  // flags with two names, versions, exit codes
  mc::run("program/other", [] {
    struct T {
      std::vector<std::string> args;
      int code; // -1: a failure
      std::string contains;
    };
    files::put(files::path("in"), text::metis(path(4)));
    const std::string in = files::path("in");
    const std::vector<T> tests = {{{"--version"}, 0, "KaMinPar v"}, {{"--dry-run", "-G", in, "-k", "2"}, 0, ""}, {{"-G", in, "-k", "2"}, 0, ""}, {{"-G", in, "-k", "2", "-v"}, 0, "RESULT cut="}, {{"-v", "-G", in, "-k", "2"}, 0, "RESULT cut="},
        {{"-G", in, "-k", "2", "-q"}, 0, ""}, {{"-G", in}, -1, ""}, {{"-k", "2"}, -1, ""}, {{}, -1, ""}, {{"-G", in, "-k", "1"}, -1, ""}, {{"-G", in, "-k", "2", "-P", "nosuch"}, -1, ""}, {{"-G", in, "-k", "2", "--nosuch"}, -1, ""},
        {{"-G", in, "-k", "2", "--p-mode", "nosuch"}, -1, ""}, {{"-G", in, "-k", "2", "--c-contraction-limit", "x"}, -1, ""}, {{"-G", in, "-k", "x"}, -1, ""}, {{"-G", in, "-k", "2", "-B", "3", "3"}, -1, ""}, {{"-G", files::path("missing"), "-k", "2"}, -1, ""},
        {{"-G", in, "-k", "2", "-e", "-1"}, -1, ""}, {{"-G", in, "-B", "1", "1"}, -1, ""}, {{"-G", in, "-b", "0.3", "0.3"}, -1, ""}, {{"-G", in, "-k", "2", "-t", "0"}, -1, ""}, {{"--help"}, 0, "--dump-config"}};
    const auto all = files::children(static_cast<int>(tests.size()), [&](int i) { return text::program(kaminpar_main, tests[static_cast<size_t>(i)].args); });
    for (size_t i = 0; i < tests.size(); ++i) {
      const auto &o = all[i];
      const std::string at = " [" + text::joined(tests[i].args) + "]";
      MC_CHECK(o.signal == 0 && o.code != 98, "the program failed: " + o.str() + at);
      const int code = o.done ? std::atoi(o.text.c_str()) : o.code;
      MC_CHECK(tests[i].code == -1 ? code != 0 : code == tests[i].code, "exit code " + std::to_string(code) + at);
      MC_CHECK((o.done ? o.text : o.all).find(tests[i].contains) != std::string::npos, "the output does not contain " + tests[i].contains + at);
      mc::count_case();
    }
  });
}
