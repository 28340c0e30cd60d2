// One translation unit of the test program of C17: executes one request with the resampler.
// The public header comes first, so that it must be self-contained.
#include "pandaresampler.hh"
#include "c17_rpc.hh"

int
RUN (const C17Request& q, C17Response& a, const C17Block *blocks, const float *x, float *y)
{
  using namespace PandaResampler;
  typedef Resampler2 R;
  memset (&a, 0, sizeof (a));
  a.sse_available = R::sse_available();
  if (q.op == 1)
    {
      // static functions and AlignedArray
      a.order = R::find_precision_for_bits (q.ratio);
      strncpy (a.text, R::precision_name (R::Precision (q.prec)), sizeof (a.text) - 1);
      a.sse_enabled = R::test_filter_impl (false);
      std::vector<float> v;
      for (uint32_t i = 0; i < q.ratio; i++)
        v.push_back (i * 0.5f);
      const AlignedArray<float> m (v);
      AlignedArray<float> n (q.ratio);
      uint32_t bad = size_t (&n[0]) % 64 || size_t (&m[0]) % 64 || m.size() != q.ratio || n.size() != q.ratio;
      for (uint32_t i = 0; i < q.ratio; i++)
        bad |= n[i] != 0 || m[i] != i * 0.5f;
      std::copy (v.begin(), v.end(), n.begin());
      bad |= n.end() - n.begin() != int (q.ratio);
      a.bad = bad;
      return 0;
    }
  AlignedArray<float> in (q.n_samples + 64), out (q.n_samples * 8 + 64);
  R r (R::Mode (q.mode), q.ratio, R::Precision (q.prec), q.sse, R::Filter (q.filt));
  a.order = r.order();
  a.delay = r.delay();
  a.sse_enabled = r.sse_enabled();
  uint32_t pos = 0, opos = 0;
  for (uint32_t b = 0; b < q.n_blocks; b++)
    {
      if (blocks[b].frames == C17_RESET)
        {
          r.reset();
          continue;
        }
      const uint32_t ni = blocks[b].frames * (q.mode ? q.ratio : 1), no = blocks[b].frames * (q.mode ? 1 : q.ratio);
      for (uint32_t i = 0; i < ni; i++)
        in[blocks[b].ia + i] = x[pos + i];
      r.process_block (&in[blocks[b].ia], ni, &out[blocks[b].oa]);
      for (uint32_t i = 0; i < no; i++)
        y[opos + i] = out[blocks[b].oa + i];
      pos += ni;
      opos += no;
    }
  a.n_out = opos;
  return 0;
}
