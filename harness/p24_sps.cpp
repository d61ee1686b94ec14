// P24: the H.264 bit reader/writer, emulation prevention and sequence parameter sets, against an independent writer,
// an independent decoder of escaped NAL units and the headers of x264.
#include "vf.hh"
#include <string>
#include <vector>
#include <memory>
#include <cstring>
#include <cstdlib>
#include <climits>
#include <unistd.h>
#include <fcntl.h>
extern "C" {
#include "modules/transmitter/SPSparser/h264_stream.h"
}
#include <x264.h>
using vf::Rng; typedef std::vector<unsigned char> Bytes;
static std::string hex(const Bytes& b, size_t n = 80) { std::string s; for (size_t i = 0; i < b.size() && i < n; i++) s += vf::fmt("%02x", b[i]); if (b.size() > n) s += "..."; return s; }
// exact copies on the heap, so that the sanitizer sees every byte beyond them
struct Exact { unsigned char* p; size_t n; Exact(const Bytes& b) : p((unsigned char*)malloc(b.size())), n(b.size()) { if (n) memcpy(p, b.data(), n); } Exact(size_t n) : p((unsigned char*)malloc(n)), n(n) { memset(p, 0xA5, n); } ~Exact() { free(p); } };
static bool same(const void* a, const void* b, size_t n) { return n == 0 || !memcmp(a, b, n); }
// ---- the independent writer
struct BitW { std::vector<bool> b; void u(int n, uint64_t v) { for (int i = n - 1; i >= 0; i--) b.push_back((v >> i) & 1); }
    void ue(uint64_t v) { v++; int l = 0; while ((v >> l) > 1) l++; u(l, 0); u(l + 1, v); } void se(int64_t v) { ue(v > 0 ? 2 * v - 1 : -2 * v); }
    Bytes bytes() const { Bytes o((b.size() + 7) / 8); for (size_t i = 0; i < b.size(); i++) if (b[i]) o[i / 8] |= 128 >> (i % 8); return o; } };
static Bytes escape(const Bytes& x, unsigned char head) { Bytes o(1, head); int z = 0; for (unsigned char c : x) { if (z >= 2 && c <= 3) { o.push_back(3); z = 0; } o.push_back(c); z = c ? 0 : z + 1; } if (z >= 2) o.push_back(3); return o; }
static bool unescape(const Bytes& n, Bytes& o) { o.clear(); for (size_t i = 1; i < n.size(); i++) { size_t z = 0; while (z < 2 && z < i - 1 && n[i - 1 - z] == 0) z++;      // zeros right before this byte in the NAL unit
        if (z == 2 && n[i] < 3) return false; if (z == 2 && n[i] == 3) { if (i + 1 < n.size() && n[i + 1] > 3) return false; continue; } o.push_back(n[i]); } return true; }
static void hrd(Rng& r, BitW& w, sps_t& s) { auto& h = s.hrd; h.cpb_cnt_minus1 = r.chance(1, 4) ? 31 : (int)r.below(32); h.bit_rate_scale = r.below(16); h.cpb_size_scale = r.below(16); w.ue(h.cpb_cnt_minus1); w.u(4, h.bit_rate_scale); w.u(4, h.cpb_size_scale);
    for (int i = 0; i <= h.cpb_cnt_minus1; i++) { uint32_t a = (uint32_t)(r.u64() >> (32 + r.below(32))), b = (uint32_t)(r.u64() >> (32 + r.below(32))); if (a == UINT32_MAX) a--; if (b == UINT32_MAX) b--; h.bit_rate_value_minus1[i] = a; h.cpb_size_value_minus1[i] = b; h.cbr_flag[i] = r.below(2); w.ue(a); w.ue(b); w.u(1, h.cbr_flag[i]); }
    h.initial_cpb_removal_delay_length_minus1 = r.below(32); h.cpb_removal_delay_length_minus1 = r.below(32); h.dpb_output_delay_length_minus1 = r.below(32); h.time_offset_length = r.below(32); w.u(5, h.initial_cpb_removal_delay_length_minus1); w.u(5, h.cpb_removal_delay_length_minus1); w.u(5, h.dpb_output_delay_length_minus1); w.u(5, h.time_offset_length); vf::count("HRD parameters"); }
static int scaling(Rng& r, BitW& w, int n) { int last = 8, next = 8, useDef = 0; for (int j = 0; j < n; j++) { if (next) { int to = j == 0 && r.chance(1, 4) ? 0 : r.chance(1, 12) ? 0 : (int)r.range(1, 255); int d = to - last; if (d > 127) d -= 256; if (d < -128) d += 256; w.se(d); next = to; if (j == 0) useDef = next == 0; } last = next ? next : last; } vf::count("scaling lists"); return useDef; }
static int big(Rng& r, int64_t max) { if (r.chance(1, 5)) return (int)max; if (r.chance(1, 5)) return 0; return (int)(r.below(r.chance(1, 2) ? max + 1 : std::min<int64_t>(max, 40) + 1)); }
static int32_t anySe(Rng& r) { if (r.chance(1, 6)) return r.pick({INT_MAX, -INT_MAX, 0, 1, -1}); return (int32_t)((int64_t)(r.u64() >> (32 + r.below(32))) >> 1) * (r.chance(1, 2) ? 1 : -1); }
// any valid sequence parameter set: the fields into s, the bits into w
static void anySps(Rng& r, sps_t& s, BitW& w) {
    memset(&s, 0, sizeof s); static const int prof[] = {66, 77, 88, 100, 110, 122, 144, 244, 44, 83, 86, 118, 128, 138}; s.profile_idc = prof[r.below(14)];
    int* c[] = {&s.constraint_set0_flag, &s.constraint_set1_flag, &s.constraint_set2_flag, &s.constraint_set3_flag, &s.constraint_set4_flag, &s.constraint_set5_flag}; w.u(8, s.profile_idc); for (int* p : c) { *p = r.below(2); w.u(1, *p); } w.u(2, 0); s.level_idc = r.below(256); w.u(8, s.level_idc); s.seq_parameter_set_id = r.below(32); w.ue(s.seq_parameter_set_id);
    s.chroma_format_idc = 1; bool high = s.profile_idc != 66 && s.profile_idc != 77 && s.profile_idc != 88;
    if (high) { vf::count("high profile sets"); s.chroma_format_idc = r.below(4); w.ue(s.chroma_format_idc); if (s.chroma_format_idc == 3) { s.residual_colour_transform_flag = r.below(2); w.u(1, s.residual_colour_transform_flag); } s.bit_depth_luma_minus8 = r.below(7); s.bit_depth_chroma_minus8 = r.below(7); s.qpprime_y_zero_transform_bypass_flag = r.below(2); w.ue(s.bit_depth_luma_minus8); w.ue(s.bit_depth_chroma_minus8); w.u(1, s.qpprime_y_zero_transform_bypass_flag); s.seq_scaling_matrix_present_flag = r.below(2); w.u(1, s.seq_scaling_matrix_present_flag);
        if (s.seq_scaling_matrix_present_flag) for (int i = 0; i < (s.chroma_format_idc == 3 ? 12 : 8); i++) { s.seq_scaling_list_present_flag[i] = r.below(2); w.u(1, s.seq_scaling_list_present_flag[i]); if (s.seq_scaling_list_present_flag[i]) { int d = scaling(r, w, i < 6 ? 16 : 64); if (i < 6) s.UseDefaultScalingMatrix4x4Flag[i] = d; else s.UseDefaultScalingMatrix8x8Flag[i - 6] = d; } } }
    s.log2_max_frame_num_minus4 = r.below(13); w.ue(s.log2_max_frame_num_minus4); s.pic_order_cnt_type = r.below(3); w.ue(s.pic_order_cnt_type);
    if (s.pic_order_cnt_type == 0) { s.log2_max_pic_order_cnt_lsb_minus4 = r.below(13); w.ue(s.log2_max_pic_order_cnt_lsb_minus4); }
    else if (s.pic_order_cnt_type == 1) { s.delta_pic_order_always_zero_flag = r.below(2); s.offset_for_non_ref_pic = anySe(r); s.offset_for_top_to_bottom_field = anySe(r); s.num_ref_frames_in_pic_order_cnt_cycle = big(r, 255); w.u(1, s.delta_pic_order_always_zero_flag); w.se(s.offset_for_non_ref_pic); w.se(s.offset_for_top_to_bottom_field); w.ue(s.num_ref_frames_in_pic_order_cnt_cycle); for (int i = 0; i < s.num_ref_frames_in_pic_order_cnt_cycle; i++) { s.offset_for_ref_frame[i] = anySe(r); w.se(s.offset_for_ref_frame[i]); } vf::count("order count cycles"); }
    s.num_ref_frames = big(r, 16); s.gaps_in_frame_num_value_allowed_flag = r.below(2); s.pic_width_in_mbs_minus1 = big(r, 1023); s.pic_height_in_map_units_minus1 = big(r, 1023); s.frame_mbs_only_flag = r.below(2); w.ue(s.num_ref_frames); w.u(1, s.gaps_in_frame_num_value_allowed_flag); w.ue(s.pic_width_in_mbs_minus1); w.ue(s.pic_height_in_map_units_minus1); w.u(1, s.frame_mbs_only_flag);
    if (!s.frame_mbs_only_flag) { s.mb_adaptive_frame_field_flag = r.below(2); w.u(1, s.mb_adaptive_frame_field_flag); } s.direct_8x8_inference_flag = r.below(2); w.u(1, s.direct_8x8_inference_flag); s.frame_cropping_flag = r.below(2); w.u(1, s.frame_cropping_flag);
    if (s.frame_cropping_flag) { int* q[] = {&s.frame_crop_left_offset, &s.frame_crop_right_offset, &s.frame_crop_top_offset, &s.frame_crop_bottom_offset}; for (int* p : q) { *p = big(r, 8000); w.ue(*p); } }
    s.vui_parameters_present_flag = r.chance(2, 3); w.u(1, s.vui_parameters_present_flag); if (s.vui_parameters_present_flag) { auto& v = s.vui; vf::count("VUI parameters");
        v.aspect_ratio_info_present_flag = r.below(2); w.u(1, v.aspect_ratio_info_present_flag); if (v.aspect_ratio_info_present_flag) { v.aspect_ratio_idc = r.chance(1, 2) ? 255 : r.below(256); w.u(8, v.aspect_ratio_idc); if (v.aspect_ratio_idc == 255) { v.sar_width = r.below(65536); v.sar_height = r.below(65536); w.u(16, v.sar_width); w.u(16, v.sar_height); } }
        v.overscan_info_present_flag = r.below(2); w.u(1, v.overscan_info_present_flag); if (v.overscan_info_present_flag) { v.overscan_appropriate_flag = r.below(2); w.u(1, v.overscan_appropriate_flag); }
        v.video_signal_type_present_flag = r.below(2); w.u(1, v.video_signal_type_present_flag); if (v.video_signal_type_present_flag) { v.video_format = r.below(8); v.video_full_range_flag = r.below(2); v.colour_description_present_flag = r.below(2); w.u(3, v.video_format); w.u(1, v.video_full_range_flag); w.u(1, v.colour_description_present_flag); if (v.colour_description_present_flag) { v.colour_primaries = r.below(256); v.transfer_characteristics = r.below(256); v.matrix_coefficients = r.below(256); w.u(8, v.colour_primaries); w.u(8, v.transfer_characteristics); w.u(8, v.matrix_coefficients); } }
        v.chroma_loc_info_present_flag = r.below(2); w.u(1, v.chroma_loc_info_present_flag); if (v.chroma_loc_info_present_flag) { v.chroma_sample_loc_type_top_field = r.below(6); v.chroma_sample_loc_type_bottom_field = r.below(6); w.ue(v.chroma_sample_loc_type_top_field); w.ue(v.chroma_sample_loc_type_bottom_field); }
        v.timing_info_present_flag = r.below(2); w.u(1, v.timing_info_present_flag); if (v.timing_info_present_flag) { uint32_t a = (uint32_t)r.u64(), b = (uint32_t)(r.u64() >> (32 + r.below(32))); v.num_units_in_tick = a; v.time_scale = b; v.fixed_frame_rate_flag = r.below(2); w.u(32, a); w.u(32, b); w.u(1, v.fixed_frame_rate_flag); }
        v.nal_hrd_parameters_present_flag = r.chance(1, 3); w.u(1, v.nal_hrd_parameters_present_flag); if (v.nal_hrd_parameters_present_flag) hrd(r, w, s); v.vcl_hrd_parameters_present_flag = r.chance(1, 3); w.u(1, v.vcl_hrd_parameters_present_flag); if (v.vcl_hrd_parameters_present_flag) hrd(r, w, s); if (v.nal_hrd_parameters_present_flag || v.vcl_hrd_parameters_present_flag) { v.low_delay_hrd_flag = r.below(2); w.u(1, v.low_delay_hrd_flag); }
        v.pic_struct_present_flag = r.below(2); v.bitstream_restriction_flag = r.below(2); w.u(1, v.pic_struct_present_flag); w.u(1, v.bitstream_restriction_flag); if (v.bitstream_restriction_flag) { v.motion_vectors_over_pic_boundaries_flag = r.below(2); w.u(1, v.motion_vectors_over_pic_boundaries_flag); int* q[] = {&v.max_bytes_per_pic_denom, &v.max_bits_per_mb_denom, &v.log2_max_mv_length_horizontal, &v.log2_max_mv_length_vertical, &v.num_reorder_frames, &v.max_dec_frame_buffering}; for (int* p : q) { *p = big(r, 16); w.ue(*p); } } }
    w.u(1, 1); }
static int toRbsp(const Bytes& nal, int room, Bytes& out, int* used = NULL) { Exact in(nal), buf(room); int n = (int)nal.size(), m = room; int ret = nal_to_rbsp(in.p, &n, buf.p, &m); if (ret >= 0) { VF_CHECK(ret == m && m <= room && n <= std::max((int)nal.size(), 1), "sizes", "%d bytes from %zu: it says %d and %d", ret, nal.size(), m, n); out.assign(buf.p, buf.p + std::min(std::max(ret, 0), room)); } if (used) *used = n; return ret; }
static int parse(const Bytes& rbsp, sps_t* s) { Exact in(rbsp); bs_t* b = bs_new(in.p, in.n); int ret = read_seq_parameter_set_rbsp(s, b); bs_free(b); return ret; }
static void debugQuietly(sps_t* s) { fflush(stdout); int keep = dup(1), nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul); debug_sps(s); fflush(stdout); dup2(keep, 1); close(keep); vf::count("sets printed"); }
static std::string differ(const sps_t& a, const sps_t& b) { const int* x = (const int*)&a; const int* y = (const int*)&b; for (size_t i = 0; i < sizeof(sps_t) / 4; i++) if (x[i] != y[i]) return vf::fmt("word %zu of the structure is %d instead of %d", i, x[i], y[i]); return ""; }
static void sets(Rng& r, vf::Hash& h) {
    std::unique_ptr<sps_t> want(new sps_t), got(new sps_t); BitW w; anySps(r, *want, w); Bytes raw = w.bytes(); Bytes nal = escape(raw, 0x67); if (nal.size() > raw.size() + 1) vf::count("sets with escapes"); h.add(raw.data(), raw.size());
    Bytes back; int ret = toRbsp(nal, (int)nal.size(), back); VF_CHECK(ret == (int)raw.size() && back == raw, "escape", "%s came back as %s", hex(raw).c_str(), hex(back).c_str());
    memset(got.get(), 0x5A, sizeof(sps_t)); ret = parse(raw, got.get()); VF_CHECK(ret == 0, "valid refused", "a valid parameter set is refused: %s", hex(raw).c_str()); if (ret == 0) { VF_CHECK(!memcmp(want.get(), got.get(), sizeof(sps_t)), "fields", "%s; profile %d chroma %d, bits %s", differ(*got, *want).c_str(), want->profile_idc, want->chroma_format_idc, hex(raw).c_str()); vf::count("sets read back"); if (r.chance(1, 50)) debugQuietly(got.get()); }
    { Bytes x = raw; x.insert(x.end(), r.below(4), (unsigned char)r.below(256)); ret = parse(x, got.get()); VF_CHECK(ret == 0 && !memcmp(want.get(), got.get(), sizeof(sps_t)), "trailing", "bytes after a parameter set change it"); }
    // cut anywhere it is no parameter set
    size_t cut = r.below(raw.size()); Bytes part(raw.begin(), raw.begin() + cut); ret = parse(part, got.get()); bool tail = true; for (size_t i = cut; i < raw.size(); i++) if (raw[i]) tail = false; (void)tail; VF_CHECK(ret < 0, "truncated", "the first %zu of %zu bytes of a parameter set are accepted: %s", cut, raw.size(), hex(raw).c_str()); vf::count("truncated sets");
    // damaged
    for (int i = 0; i < 4; i++) { Bytes x = raw; for (int k = r.range(1, 6); k--;) { size_t at = r.below(x.size()); if (r.chance(1, 2)) x[at] ^= 1 << r.below(8); else if (r.chance(1, 2)) x[at] = r.pick({0, 0, 255, 1, 128}); else x.erase(x.begin() + at); if (x.empty()) break; } ret = parse(x, got.get()); h.add(ret); vf::count(ret < 0 ? "damaged sets refused" : "damaged sets read"); if (r.chance(1, 60)) debugQuietly(got.get()); }
    { Bytes x(r.range(0, 120)); int zeros = r.below(4); for (auto& c : x) c = r.below(8) < (unsigned)zeros * 2 ? 0 : r.below(256); if (!x.empty() && r.chance(2, 3)) x[0] = r.pick({100, 66, 244, 77}); ret = parse(x, got.get()); vf::count("random sets"); } }
static void escapes(Rng& r, vf::Hash& h) {
    Bytes x(r.range(0, 60)); for (auto& c : x) c = r.chance(2, 3) ? r.below(4) * r.below(2) : r.below(256); size_t z = 0; while (z < x.size() && !x[x.size() - 1 - z]) z++; if (z == 1 || (z & 1)) x.push_back(0x80);
    Bytes nal = escape(x, r.below(256)), back; int ret = toRbsp(nal, (int)nal.size(), back); VF_CHECK(ret == (int)x.size() && back == x, "escape", "%s escaped as %s came back as %s (%d)", hex(x).c_str(), hex(nal).c_str(), hex(back).c_str(), ret); vf::count("escapes undone"); h.add(x.data(), x.size());
    if (!x.empty()) { int room = (int)r.below(x.size()); Bytes o; ret = toRbsp(nal, room, o); VF_CHECK(ret < 0, "room", "%zu bytes fit in %d", x.size(), room); vf::count("buffers too small"); }
    Bytes g(r.range(0, 40)); for (auto& c : g) c = r.chance(3, 4) ? r.below(5) * r.below(2) : r.below(256); Bytes want; bool ok = unescape(g, want); ret = toRbsp(g, (int)g.size(), back); VF_CHECK((ret >= 0) == ok && (!ok || back == want), "decode", "%s gives %d %s instead of %s", hex(g).c_str(), ret, hex(back).c_str(), ok ? hex(want).c_str() : "a refusal"); vf::count(ok ? "arbitrary units read" : "arbitrary units refused"); }
// the bit writer and reader against the independent writer
static void bits(Rng& r, vf::Hash& h) {
    struct Op { int k, n; uint64_t v; }; std::vector<Op> ops; BitW w; int n = r.range(1, 40); for (int i = 0; i < n; i++) { Op o = {(int)r.below(6), 0, 0}; switch (o.k) { case 0: o.v = r.below(2); w.u(1, o.v); break; case 1: o.n = r.range(0, 32); o.v = r.u64() & ((1ull << o.n) - 1); w.u(o.n, o.v); break; case 2: o.v = r.below(256); w.u(8, o.v); break; case 3: o.v = r.chance(1, 6) ? r.pick({0xFFFFFFFEu, 0xFFFFu, 0x10000u, 0x7FFFFFFFu, 0u, 255u, 254u}) : (uint32_t)(r.u64() >> (32 + r.below(32))); if (o.v == UINT32_MAX) o.v--; w.ue(o.v); break; case 4: o.v = (uint64_t)(int64_t)anySe(r); w.se((int64_t)o.v); break; case 5: o.n = r.range(1, 24); o.v = r.u64() & ((1ull << o.n) - 1); w.u(o.n, o.v); break; } ops.push_back(o); h.add(o.k).add(o.v); }
    Bytes want = w.bytes(); size_t room = r.chance(1, 4) ? r.below(want.size() + 1) : want.size(); Exact buf(room); if (r.chance(1, 2)) memset(buf.p, 0xFF, room); bs_t b; bs_init(&b, buf.p, room); for (auto& o : ops) switch (o.k) { case 0: bs_write_u1(&b, (uint32_t)o.v); break; case 1: bs_write_u(&b, o.n, (uint32_t)o.v); break; case 2: bs_write_u8(&b, (uint32_t)o.v); break; case 3: bs_write_ue(&b, (uint32_t)o.v); break; case 4: bs_write_se(&b, (int32_t)(int64_t)o.v); break; case 5: bs_write_f(&b, o.n, (uint32_t)o.v); break; }
    size_t whole = std::min(room, w.b.size() / 8); VF_CHECK(same(buf.p, want.data(), whole), "written bits", "the bits written are %s instead of %s", hex(Bytes(buf.p, buf.p + room)).c_str(), hex(want).c_str()); VF_CHECK((bs_overrun(&b) != 0) == (w.b.size() / 8 > room), "overrun", "%zu bits into %zu bytes: overrun %d", w.b.size(), room, bs_overrun(&b)); VF_CHECK(bs_pos(&b) == (int)std::min(room, w.b.size() / 8), "position", "at %d after %zu bits in %zu bytes", bs_pos(&b), w.b.size(), room); vf::count("bit sequences written");
    if (room < want.size()) { vf::count("writes beyond the end"); return; } Exact in(want); bs_t q; bs_init(&q, in.p, in.n); size_t at = 0; for (auto& o : ops) { VF_CHECK(bs_next_bits(&q, 7) == [&] { uint32_t v = 0; for (size_t i = at; i < at + 7; i++) v = v * 2 + (i < w.b.size() && w.b[i]); return v; }(), "peek", "the next bits are wrong"); int64_t got = 0, exp = (int64_t)o.v; switch (o.k) { case 0: { uint32_t pk = bs_peek_u1(&q); got = bs_read_u1(&q); VF_CHECK(pk == (uint32_t)got, "peek", "peeked %u and read %d", pk, (int)got); at++; break; } case 1: if (r.chance(1, 6)) { bs_skip_u(&q, o.n); got = exp; } else got = bs_read_u(&q, o.n); at += o.n; break; case 2: got = bs_read_u8(&q); at += 8; break; case 3: got = bs_read_ue(&q); break; case 4: got = bs_read_se(&q); break; case 5: got = bs_read_f(&q, o.n); at += o.n; break; } if (o.k == 3) { BitW t; t.ue(o.v); at += t.b.size(); } if (o.k == 4) { BitW t; t.se((int64_t)o.v); at += t.b.size(); } VF_CHECK(got == exp, "read bits", "%lld written (operation %d, %d bits) and %lld read", (long long)exp, o.k, o.n, (long long)got); VF_CHECK((size_t)(bs_pos(&q) * 8 + (8 - q.bits_left)) == at, "position", "reader at bit %d instead of %zu", bs_pos(&q) * 8 + 8 - q.bits_left, at); if (vf::failed()) return; }
    VF_CHECK(!bs_overrun(&q), "overrun", "reading what was written overruns"); vf::count("bit sequences read"); for (int i = 0; i < 20; i++) { bs_read_u1(&q); bs_read_ue(&q); bs_read_u8(&q); } VF_CHECK(bs_eof(&q) && bs_pos(&q) == (int)want.size(), "end", "reading beyond the end"); vf::count("reads beyond the end");
    { Bytes d(r.range(0, 30)); for (auto& c : d) c = r.below(256); Exact s(d); bs_t t; bs_init(&t, s.p, s.n); int a = r.range(0, 12); bs_skip_bytes(&t, a); int len = r.range(-2, 40), left = std::max(0, (int)d.size() - a); Exact to((size_t)std::max(len, 0)); int m = bs_read_bytes(&t, to.p, len); VF_CHECK(m == std::max(0, std::min(len, left)) && same(to.p, s.p + std::min(a, (int)d.size()), m), "bytes", "%d of %d bytes read", m, len); Bytes o(d.size()); Exact e(o); bs_init(&t, e.p, e.n); Exact src(Bytes(50, 0x33)); m = bs_write_bytes(&t, src.p, (int)r.range(0, 50)); VF_CHECK(m <= (int)d.size(), "bytes", "%d bytes written into %zu", m, d.size()); bs_init(&t, s.p, s.n); int nb = r.range(0, 10); uint64_t v = bs_next_bytes(&t, nb), ex = 0; if (nb >= 1 && nb <= 8 && nb <= (int)d.size()) for (int i = 0; i < nb; i++) ex = ex << 8 | d[i]; VF_CHECK(v == ex, "bytes", "the next %d bytes", nb); vf::count("byte runs"); } }
static void real(Rng& r) {      // what an encoder writes
    x264_param_t p; x264_param_default_preset(&p, "ultrafast", NULL); p.i_log_level = X264_LOG_NONE; p.i_threads = 1; p.i_width = (int)r.range(8, 400) * 2; p.i_height = (int)r.range(8, 300) * 2; bool y444 = r.chance(1, 4), y422 = !y444 && r.chance(1, 4); p.i_csp = y444 ? X264_CSP_I444 : y422 ? X264_CSP_I422 : X264_CSP_I420; p.i_fps_num = r.pick({25, 30, 50, 60, 24000, 30000, 15}); p.i_fps_den = p.i_fps_num > 1000 ? 1001 : 1; p.b_vfr_input = 0; p.i_cqm_preset = r.pick({X264_CQM_FLAT, X264_CQM_JVT}); p.analyse.b_transform_8x8 = 1; p.b_annexb = 1; p.b_interlaced = r.chance(1, 5); if (r.chance(1, 3)) { p.i_nal_hrd = X264_NAL_HRD_VBR; p.rc.i_rc_method = X264_RC_ABR; p.rc.i_bitrate = 500; p.rc.i_vbv_max_bitrate = 800; p.rc.i_vbv_buffer_size = 400; } p.vui.i_sar_width = 37; p.vui.i_sar_height = 29; p.i_bframe = 3;
    x264_t* e = x264_encoder_open(&p); if (!e) { vf::count("encoder refused"); return; } x264_nal_t* nals; int n; if (x264_encoder_headers(e, &nals, &n) >= 0) for (int i = 0; i < n; i++) if (nals[i].i_type == NAL_SPS) { Bytes nal(nals[i].p_payload + 4, nals[i].p_payload + nals[i].i_payload); if (nals[i].p_payload[2] == 1) nal.insert(nal.begin(), nals[i].p_payload[3]); Bytes raw; std::unique_ptr<sps_t> s(new sps_t); if (toRbsp(nal, (int)nal.size(), raw) < 0 || parse(raw, s.get()) < 0) { vf::fail("encoder set", "the parameter set of an encoder is refused: %s", hex(nal).c_str()); break; }
            int cx = y444 ? 1 : 2, cy = y444 || y422 ? 1 : 2; if (!s->frame_mbs_only_flag) cy *= 2; int w = (s->pic_width_in_mbs_minus1 + 1) * 16, h = (2 - s->frame_mbs_only_flag) * (s->pic_height_in_map_units_minus1 + 1) * 16; if (s->frame_cropping_flag) { w -= cx * (s->frame_crop_left_offset + s->frame_crop_right_offset); h -= cy * (s->frame_crop_top_offset + s->frame_crop_bottom_offset); }
            VF_CHECK(w == p.i_width && h == p.i_height, "encoder size", "%dx%d pictures are announced as %dx%d (profile %d): %s", p.i_width, p.i_height, w, h, s->profile_idc, hex(nal).c_str()); VF_CHECK(s->vui.timing_info_present_flag && (uint64_t)s->vui.time_scale * p.i_fps_den == 2ull * s->vui.num_units_in_tick * p.i_fps_num, "encoder rate", "%d/%d frames per second are announced as %d/%d", p.i_fps_num, p.i_fps_den, s->vui.time_scale, 2 * s->vui.num_units_in_tick); VF_CHECK(s->chroma_format_idc == (y444 ? 3 : y422 ? 2 : 1), "encoder format", "chroma format %d", s->chroma_format_idc); VF_CHECK(s->vui.aspect_ratio_idc == 255 && s->vui.sar_width == 37 && s->vui.sar_height == 29, "encoder aspect", "aspect %d, %d:%d", s->vui.aspect_ratio_idc, s->vui.sar_width, s->vui.sar_height); vf::count("sets of an encoder"); }
    x264_encoder_close(e); }
void vf_init(vf::Ctx&) {} void vf_done(vf::Ctx&) {}
void vf_case(vf::Ctx& c) { vf::Hash h; for (int i = 0; i < 20 && !vf::failed(); i++) { sets(c.rng, h); escapes(c.rng, h); bits(c.rng, h); } if (c.idx % 4 == 0) real(c.rng); vf::distinct(h.h); if (c.idx < 2) vf::sample("20 sets of random fields written bit by bit, cut and damaged; 20 escaped units; 20 bit sequences"); }
