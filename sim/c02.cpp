// C02: memory can run out at any allocation of any call.
#include "core.hpp"
#include "ops.hpp"

namespace sim {
char const* scenario_name () { return "C02"; }
unsigned scenario_chunk () { return 16; }
void scenario_init () {}

namespace {
unsigned const kinds[] = {
  ops::k_split,         ops::k_split_reference, ops::k_join_text,  ops::k_join_parts,  ops::k_remove_dots,
  ops::k_path_string,   ops::k_path_fs,         ops::k_equal,      ops::k_valid,       ops::k_pctencode,
  ops::k_pctdecode,     ops::k_pctdecode_view,  ops::k_puny_encode, ops::k_puny_decode, ops::k_utf,
  ops::k_utf_view,      ops::k_compose,         ops::k_encode,     ops::k_decode,      ops::k_category,
  ops::k_needs,         ops::k_utf_damaged,     ops::k_bytes};

// Performs the call; nothing means std::bad_alloc.
std::optional<std::string> attempt (ops::Call const& c) {
  try {
    return c.run ();
  } catch (std::bad_alloc const&) {
    return {};
  }
}
}  // namespace

void run_case (Ctx& c) {
  gen::Swarm const w{c.src};
  unsigned const n = 1 + c.src.draw (4);
  for (unsigned i = 0; i < n; ++i) {
    ops::Call const call = ops::make (c.src, w, kinds[c.src.draw (std::size (kinds))]);
    stats.add ("calls." + call.name);
    c.log (call.text);
    c.mark (call.name);
    ops::arm = true;
    ops::plan = {};
    auto const first_answer = attempt (call);
    AllocState const seen = alloc;
    if (!first_answer) {
      c.fail ("spurious-failure", call.text + " reported std::bad_alloc although no allocation failed");
    }
    std::string const good = *first_answer;
    if (call.expect && good != *call.expect) {
      c.fail ("wrong-answer", call.text + " gave " + good + ", expected " + *call.expect);
    }
    if (!call.intact ()) {
      c.fail ("argument-changed", call.text + " changed its arguments");
    }
    c.mark (seen.count);
    // libstdc++'s std::filesystem::path::operator/= itself is not safe when an allocation fails.
    if (seen.count == 0 || call.name == "path->filesystem") {
      stats.add ("probe.call_without_allocation");
      continue;
    }
    unsigned const tries = 1 + c.src.draw (4);
    for (unsigned t = 0; t < tries; ++t) {
      AllocPlan const plan = draw_plan (c.src, seen.count, seen.max_size, seen.bytes);
      c.mark (static_cast<std::uint64_t> (plan.kind) * 4099 + plan.n);
      ops::plan = plan;
      auto once = [&] (bool first) {
        std::int64_t const live = live_blocks;
        std::int64_t after = 0;
        {
          auto const got = attempt (call);
          if (first) {
            c.log ("  " + plan_text (plan) + ": " + (got ? *got : "std::bad_alloc") + " (" +
                   std::to_string (alloc.failed) + " failed)");
          }
          if (!got) {
            if (alloc.failed == 0) {
              c.fail ("spurious-failure", call.text + " reported std::bad_alloc although no allocation failed");
            }
            stats.add ("probe.reported");
            c.nontrivial ();
          } else {
            if (alloc.failed != 0) {
              stats.add ("probe.survived_failure");
            }
            if (*got != good) {
              c.fail ("wrong-under-exhaustion",
                      call.text + " with " + plan_text (plan) + " gave " + *got + ", expected " + good + " or std::bad_alloc");
            }
          }
          if (!call.intact ()) {
            c.fail ("argument-changed", call.text + " with " + plan_text (plan) + " changed its arguments");
          }
        }
        after = live_blocks;
        return after - live;
      };
      if (once (true) > 0 && once (false) > 0 && once (false) > 0) {
        c.fail ("leak", call.text + " with " + plan_text (plan) + " leaks memory every time");
      }
      ops::plan = {};
      auto const again = attempt (call);
      if (again != good) {
        c.fail ("no-recovery", call.text + " after " + plan_text (plan) + " gave " +
                                 (again ? *again : "std::bad_alloc") + ", expected " + good);
      }
    }
    ops::arm = false;
  }
}
}  // namespace sim
