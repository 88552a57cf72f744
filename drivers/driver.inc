// Instantiates the public templates with handlers whose operators are only declared: every call to
// them is an observable effect for the analysis.
namespace vdrv {

struct packet_sink
{
  void operator()(const char* data, std::size_t len);
  void operator()();
};

struct data_sink
{
  void operator()(const char* data, std::size_t len);
};

using enc_t = ntc::encoder<packet_sink>;
using dec_t = ntc::decoder<packet_sink, data_sink>;

} // namespace vdrv

template class ntc::encoder<vdrv::packet_sink>;
template class ntc::decoder<vdrv::packet_sink, vdrv::data_sink>;
template class ntc::detail::packetizer<vdrv::packet_sink>;

namespace vdrv {

inline void use_ctor_enc() { enc_t e{8, packet_sink{}}; (void)e; }
inline void use_ctor_dec() { dec_t d{8, ntc::in_order::yes, packet_sink{}, data_sink{}}; (void)d; }
inline std::size_t use_dispatch(enc_t& e, dec_t& d, ntc::packet&& p) { return ntc::dispatch(e, d, std::move(p)); }
inline void use_packet(ntc::packet& p, const ntc::packet& c, const char* b, const char* e)
{
  ntc::packet q(b, e);
  p.assign(b, e);
  p.assign({'a'});
  ntc::packet r{c};
  ntc::packet s{std::move(q)};
  r = c;
  s = std::move(r);
}

} // namespace vdrv
