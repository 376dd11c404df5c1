// C26: conversions of statuses, timeouts, ids and peer names.
#include "common.h"
#include "reverb/cc/errors.h"
#include "reverb/cc/reverb_service.pb.h"
#include "reverb/cc/sampler.h"
#include "reverb/cc/support/grpc_util.h"
#include "reverb/cc/support/key_generators.h"
#include "reverb/cc/support/tf_util.h"
#include "reverb/cc/support/uint128.h"
using namespace deepmind::reverb;
namespace {
std::string sym_string(int max) {
  std::string s;
  int n = choose(max + 1, "length");
  for (int i = 0; i < n; i++) s.push_back((char)verif::u8("char"));
  return s;
}
bool has(const std::string& s, const std::string& x) {
  if (s.size() < x.size()) return false;
  bool any = false;
  for (size_t i = 0; i + x.size() <= s.size(); i++) {
    bool same = true;
    for (size_t j = 0; j < x.size(); j++) same = same & (s[i + j] == x[j]);
    any = any | same;
  }
  return any;
}
}  // namespace
extern "C" void verif_main() {
  switch (choose(7, "what")) {
    case 0: {
      int code = (int)verif::range(0, 16, "code");
      std::string m = sym_string(MAXLEN);
      absl::Status a((absl::StatusCode)code, m);
      grpc::Status g = ToGrpcStatus(a);
      VCHECK(g.ok() == (code == 0), "success stays success");
      if (code) VCHECK((int)g.error_code() == code && g.error_message() == m, "code and message are kept");
      absl::Status b = FromGrpcStatus(g);
      VCHECK(b.ok() == (code == 0), "success stays success");
      if (code) VCHECK((int)b.code() == code && b.message() == m, "code and message are kept");
      tensorflow::Status t = ToTensorflowStatus(a);
      VCHECK(t.ok() == (code == 0), "success stays success");
      if (code) VCHECK((int)t.code() == code && t.error_message() == m, "code and message are kept");
      absl::Status c = FromTensorflowStatus(t);
      VCHECK(c.ok() == (code == 0), "success stays success");
      if (code) VCHECK((int)c.code() == code && c.message() == m, "code and message are kept");
      verif_reach("status");
      break;
    }
    case 1: {
      // The one exception: a removed stream can be retried.
      int code = (int)verif::range(0, 16, "code");
      std::string m = "Stream removed";
      int n = choose(3, "change");
      if (n == 1) m += (char)verif::u8("char");
      if (n == 2) m[choose((int)m.size(), "at")] = (char)verif::u8("char");
      grpc::Status g((grpc::StatusCode)code, m);
      absl::Status b = FromGrpcStatus(g);
      bool removed = (code == 2) & (n != 1 && m == "Stream removed");
      VCHECK(b.ok() == (code == 0), "success stays success");
      if (code) VCHECK((int)b.code() == (removed ? 14 : code) && b.message() == m, "only a removed stream is reported as unavailable");
      verif_reach("removed");
      break;
    }
    case 2: {
      absl::Status t = errors::RateLimiterTimeout();
      VCHECK(absl::IsDeadlineExceeded(t) && errors::IsRateLimiterTimeout(t), "a rate limiter timeout is recognised");
      VCHECK(errors::IsRateLimiterTimeout(FromGrpcStatus(ToGrpcStatus(t))) && errors::IsRateLimiterTimeout(FromTensorflowStatus(ToTensorflowStatus(t))),
             "a rate limiter timeout is recognised after conversion");
      int code = (int)verif::range(1, 16, "code");
      std::string full(t.message()), m = full;
      switch (choose(4, "message")) {
        case 0: m = sym_string(MAXLEN); break;
        case 1: m = sym_string(SIDE) + m + sym_string(SIDE); break;
        case 2: m[verif_concrete(verif::range(0, (int64_t)m.size() - 1, "at"))] = (char)verif::u8("char"); break;
        case 3: m = m.substr(0, m.size() - 1); break;
      }
      absl::Status o((absl::StatusCode)code, m);
      VCHECK(errors::IsRateLimiterTimeout(o) == ((code == 4) & has(m, full)), "other errors are told apart");
      VCHECK(!errors::IsRateLimiterTimeout(absl::OkStatus()), "success is not a timeout");
      verif_reach("timeout");
      break;
    }
    case 3: {
      int64_t ms = verif::range(-(1ll << MSBITS), (1ll << MSBITS) - 1, "ms") * (1ll << 3 * choose(9, "scale"));
      absl::Duration d = Int64MillisToNonnegativeDuration(ms);
      if (ms < 0) {
        VCHECK(d == absl::InfiniteDuration(), "a negative timeout means forever");
        VCHECK(NonnegativeDurationToInt64Millis(d) == -1, "forever is passed on as a negative timeout");
      } else {
        VCHECK(d == absl::Milliseconds(ms) && d < absl::InfiniteDuration(), "a timeout keeps its length");
        VCHECK(NonnegativeDurationToInt64Millis(d) == ms, "a timeout keeps its length");
      }
      // Sub-millisecond parts are cut off.
      static const int kUs[] = {0, 1, 500, 999};
      int64_t us = kUs[choose(4, "us")];
      if (ms >= 0) VCHECK(NonnegativeDurationToInt64Millis(d + absl::Microseconds(us)) == ms, "a timeout is rounded down to milliseconds");
      verif_reach("duration");
      break;
    }
    case 4: {
      absl::uint128 v = absl::MakeUint128(verif::u64("high"), verif::u64("low"));
      Uint128 m = Uint128ToMessage(v);
      VCHECK(m.high() == absl::Uint128High64(v) && m.low() == absl::Uint128Low64(v) && MessageToUint128(m) == v, "an id is kept");
      verif_reach("id");
      break;
    }
    case 5: {
      std::string s = sym_string(SIDE), t = sym_string(SIDE);
      int k = choose(7, "peer");
      const char* mid[] = {":127.0.0.1:", "[::1]", "unknown", ":127.0.0.1", "127.0.0.1:", "[::2]", ":10.0.0.1:"};
      std::string peer = s + mid[k] + t;
      bool local = has(peer, ":127.0.0.1:") | has(peer, "[::1]") | (peer.size() == 7 && peer == "unknown");
      VCHECK(IsLocalhostOrInProcess(peer) == local, "only loopback and in-process peers are local");
      if (k < 2) VCHECK(IsLocalhostOrInProcess(peer), "a loopback peer is local");
      verif_reach("peer");
      break;
    }
    case 6: {
      // Keys are what the random source gives, over the whole range but one.
      v_rng.mode = 0;
      internal::UniformKeyGenerator g;
      uint64_t a = g.Generate(), b = g.Generate();
      VCHECK(a != UINT64_MAX && b != UINT64_MAX, "a key is within its range");
      if (verif::b("equal")) {
        verif_assume(a == b);
        verif_reach("keys are drawn independently");
      } else {
        verif_assume((a > (1ull << 63)) & (b < 16));
        verif_reach("keys use the whole range");
      }
      break;
    }
  }
}
