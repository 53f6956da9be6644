// Data sources, consumers and what stands between them: random chains, data, block sizes and acceptances.
#include "drv.h"
#include <stingraykit/io/DataAligner.h>
#include <stingraykit/io/DataPacketer.h>
#include <stingraykit/io/DataUtils.h>
#include <stingraykit/io/ByteArrayDataSource.h>
#include <stingraykit/io/ByteStreamDataSource.h>
#include <stingraykit/io/MemoryByteStream.h>
#include <stingraykit/io/BufferedDataMediator.h>
#include <stingraykit/io/DataSourceReader.h>
#include <stingraykit/io/PipeDataSource.h>
#include <stingraykit/io/BufferedPipe.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <memory>
using namespace stingray; using namespace drv;
typedef std::vector<int> Ints;
static Ints ints(ConstByteData d) { return Ints(d.begin(), d.end()); }
static int g_steps = 0;
static void step() { if (++g_steps > 3000) { vs::ev("stuck"); vs::finish(); } }
struct Src : public virtual IDataSource // blocks of random sizes; keeps what was not accepted
{
	std::vector<u8> d; size_t p; std::vector<int> bl; size_t b; bool all;
	Src(const std::vector<u8>& x, bool a) : d(x), p(0), b(0), all(a) { for (int i = 0; i < 4; ++i) bl.push_back(vs::rnd(1, 5)); }
	virtual void Read(IDataConsumer& c, const ICancellationToken& t)
	{
		step(); if (p == d.size()) { c.EndOfData(t); return; }
		size_t n = all ? d.size() - p : std::min<size_t>(bl[b++ % 4], d.size() - p); size_t r = c.Process(ConstByteData(d.data() + p, n), t);
		if (r > n) { vs::ev("accepted more than offered"); vs::finish(); }
		p += r;
	}
};
struct PipeSrc : public virtual IPipe
{
	std::vector<u8> d; size_t p;
	PipeSrc(const std::vector<u8>& x) : d(x), p(0) { }
	u64 Read(ByteData b, const ICancellationToken&) { step(); if (p == d.size()) throw PipeClosedException(); size_t n = std::min<size_t>(std::min<size_t>(vs::rnd(1, 4), b.size()), d.size() - p); std::copy(d.begin() + p, d.begin() + p + n, b.data()); p += n; return n; }
	u64 Write(ConstByteData, const ICancellationToken&) { throw TestError(1); }
	bool Peek(const ICancellationToken&) { return true; }
};
struct Sink : public virtual IDataConsumer
{
	bool full, eod;
	Sink(bool f) : full(f), eod(false) { }
	virtual size_t Process(ConstByteData d, const ICancellationToken&) { step(); size_t r = full || vs::chance(1, 3) ? d.size() : vs::rnd(0, d.size()); vs::ev("p").li("d", ints(d)).i("r", r); return r; }
	virtual void EndOfData(const ICancellationToken&) { eod = true; vs::ev("eod"); }
};
struct PSink : public virtual IPacketConsumer<EmptyType>
{
	bool eod; PSink() : eod(false) { }
	virtual bool Process(const Packet<EmptyType>& p, const ICancellationToken&) { step(); bool r = vs::chance(2, 3); vs::ev("p").li("d", ints(p.GetData())).i("r", r ? p.GetSize() : 0); return r; }
	virtual void EndOfData() { eod = true; vs::ev("eod"); }
};
static void icpt(ConstByteData d, const ICancellationToken&) { vs::ev("i").li("d", ints(d)); }
static void icptEod(const ICancellationToken&) { }
// a mediator in between
struct Mediated : public virtual IDataSource
{
	IDataSourcePtr s; BufferedDataMediator m; bool eod;
	struct To : public virtual IDataConsumer { Mediated& m; To(Mediated& x) : m(x) { } virtual size_t Process(ConstByteData d, const ICancellationToken& t) { return m.m.Process(d, t); } virtual void EndOfData(const ICancellationToken& t) { m.eod = true; m.m.EndOfData(t); } };
	Mediated(const IDataSourcePtr& s_) : s(s_), eod(false) { }
	virtual void Read(IDataConsumer& c, const ICancellationToken& t) { To to(*this); for (int i = vs::rnd(1, 2); i > 0 && !eod; --i) s->Read(to, t); m.Read(c, t); }
};
static void run()
{
	vs::set_time_jitter(false); DummyCancellationToken tk;
	int ps = vs::chance(1, 3) ? vs::rnd(1, 3) : 0, n = vs::rnd(0, 12); if (ps) n = n / ps * ps;
	std::vector<u8> d; for (int i = 1; i <= n; ++i) d.push_back(i);
	int base = vs::rnd(0, 4), len = n, al = 1, ic = 0; IDataSourcePtr s; std::string ch; bool retains = true;
	if (ps && base >= 2) base = 1;
	switch (base)
	{
	case 0: s = make_shared_ptr<Src>(d, ps > 0); break;
	case 1: s = make_shared_ptr<ByteArrayDataSource>(ConstByteArray(d.data(), d.size())); break;
	case 2: s = make_shared_ptr<ByteStreamDataSource>(CreateMemoryByteStream(ConstByteData(d.data(), d.size())), vs::rnd(1, 5)); break;
	case 3: { IPipePtr p = make_shared_ptr<PipeSrc>(d); if (vs::chance(1, 2)) p = make_shared_ptr<BufferedPipe>(p, vs::rnd(1, 5)); s = make_shared_ptr<PipeDataSource>(p, vs::rnd(1, 5)); retains = false; break; }
	default: s = make_shared_ptr<Src>(d, false);
	}
	auto add = [&](const char* w, int a) { ch += std::string(ch.empty() ? "" : ",") + "{\"w\":\"" + w + "\",\"a\":" + std::to_string(a) + "}"; };
	bool insist = false, taken = false, packets = false, whole = !retains;
	for (int i = vs::rnd(0, 2); i > 0 && !packets; --i)
	{
		int w = vs::rnd(0, 7);
		if (ps && (i != 1 || w < 4)) { w = 6; }
		if (taken && w == 0) w = 7;
		switch (w)
		{
		case 0: if (whole) break; { int a = vs::rnd(0, n + 1); bool disc = insist || base == 2 || base == 3 || vs::chance(1, 3); s = make_shared_ptr<DataTaker>(s, a, disc); al = 1; add("tk", a); len = std::min(len, a); taken = true; break; }
		case 1: { if (taken) break; int a = vs::rnd(0, n + 1); bool rest = true; insist = true; s = make_shared_ptr<DataSkipper>(s, a, rest); al = 1; add("sk", a); len = std::max(0, len - a); break; }
		case 2: case 3: { int a = vs::rnd(1, 4); if (al != 1 || whole) break; insist = true; bool ub = whole || base != 1 || taken || vs::chance(2, 3) || len % a != 0 || ch.size(); s = make_shared_ptr<DataAligner>(s, a, ub); add("al", a); len = len / a * a; al = a; break; }
		case 4: if (ic || al != 1 || whole || taken) break; s = make_shared_ptr<InterceptingDataSource>(s, &icpt, &icptEod); ic = 1; if (vs::chance(1, 1)) i = 1; break;
		case 5: if (!taken && !ps) { insist = true; s = make_shared_ptr<ReactiveDataSource>(s); } break;
		case 6: if (ps && !taken) packets = true; else if (!taken && !ps && al == 1) { auto p = make_shared_ptr<DataPacketer>(s); s = make_shared_ptr<DataDepacketer>(p); insist = true; whole = false; } break;
		default: if (!taken && !ps) { insist = true; s = make_shared_ptr<Mediated>(s); al = 1; }
		}
		if (ic) break;
	}
	if (!packets) ps = 0;
	vs::ev("cfg").li("d", Ints(d.begin(), d.end())).raw("ch", "[" + ch + "]").i("al", al).i("ps", ps).i("ic", ic);
	if (packets) { PSink k; DataPacketer p(s, (size_t)ps); while (!k.eod) { step(); p.Read(k, tk); } }
	else
	{
		Sink k(whole);
		int idle = 0;
		while (!k.eod && !(taken && idle > 3)) { step(); int before = g_steps; s->Read(k, tk); idle = g_steps == before ? idle + 1 : 0; }
	}
	vs::ev("end");
}
int main(int argc, char** argv) { return vs::main(argc, argv, run); }
