// Byte streams: random operation programs.
#include "drv.h"
#include <stingraykit/io/MemoryByteStream.h>
#include <stingraykit/io/ChunkedMemoryByteStream.h>
#include <stingraykit/io/BufferedStream.h>
#include <stingraykit/io/ByteStreamWithOffset.h>
#include <stingraykit/io/ByteStreamWithOffsetAndSize.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <memory>
using namespace stingray; using namespace drv;
typedef std::vector<int> Ints;
// a growing stream that moves at most k bytes per operation
struct Stub : public virtual IByteStream
{
	std::vector<u8> d; size_t k, p;
	Stub(const Ints& i, size_t k_) : d(i.begin(), i.end()), k(k_), p(0) { }
	u64 Read(ByteData b, const ICancellationToken&) { size_t n = std::min(std::min(b.size(), k), d.size() - p); std::copy(d.begin() + p, d.begin() + p + n, b.data()); p += n; return n; }
	u64 Write(ConstByteData b, const ICancellationToken&) { size_t n = std::min(b.size(), k); if (d.size() < p + n) d.resize(p + n); std::copy(b.data(), b.data() + n, d.begin() + p); p += n; return n; }
	void Seek(s64 o, SeekMode m = SeekMode::Begin)
	{
		s64 t = m == SeekMode::Begin ? o : m == SeekMode::Current ? (s64)p + o : (s64)d.size() + o;
		if (t < 0 || t > (s64)d.size()) throw TestError(3);
		p = t;
	}
	u64 Tell() const { return p; }
};
static int rndByte() { static const int b[] = { 1, 2, 3, 10, 13 }; return b[vs::rnd(0, 4)]; }
static Ints rndBytes(int lo, int hi) { Ints r; for (int i = vs::rnd(lo, hi); i > 0; --i) r.push_back(rndByte()); return r; }
template <class C> static Ints toInts(const C& c) { return Ints(c.begin(), c.end()); }
static void run()
{
	vs::set_time_jitter(false);
	Ints d = rndBytes(0, 7); std::vector<u8> store(d.begin(), d.end());
	static const char* names[] = { "arr", "fix", "const", "chunk", "stub" };
	int b = vs::rnd(0, 4), k = b == 4 ? vs::rnd(1, 3) : 0, lo = 0, hi = -1, al = 1; std::string buf;
	IByteStreamPtr s; std::function<Ints ()> all;
	switch (b)
	{
	case 0: { ByteArray a(store.data(), store.size()); auto m = make_shared_ptr<ByteArrayByteStream>(a); s = m; all = [=]{ return toInts(m->GetData()); }; break; }
	case 1: s = vs::chance(1, 2) ? CreateMemoryByteStream(ByteData(store.data(), store.size())) : IByteStreamPtr(make_shared_ptr<ByteDataByteStream>(ByteData(store.data(), store.size()))); all = [&]{ return toInts(store); }; break;
	case 2: s = vs::chance(1, 2) ? CreateMemoryByteStream(ConstByteData(store.data(), store.size())) : IByteStreamPtr(make_shared_ptr<ConstByteArrayByteStream>(ConstByteArray(store.data(), store.size()))); all = [&]{ return toInts(store); }; break;
	case 3: {
		typedef ChunkedMemoryByteStream<ByteArray> C; C::ContainerTypePtr v = make_shared_ptr<std::vector<ByteArray> >();
		for (size_t i = 0; i < d.size(); ) { size_t n = std::min<size_t>(vs::rnd(1, 3), d.size() - i); v->push_back(ByteArray(store.data() + i, n)); i += n; }
		s = make_shared_ptr<C>(v); all = [=]{ Ints r; for (auto& c : *v) for (u8 x : c) r.push_back(x); return r; }; break; }
	default: { auto m = make_shared_ptr<Stub>(d, k); s = m; all = [=]{ return toInts(m->d); }; }
	}
	auto buffer = [&]{ al = vs::rnd(1, k ? k : 3); // reads of the stub reach the position
		 s = make_shared_ptr<BufferedStream>(s, al * vs::rnd(1, 3), al); };
	if (b != 3 && vs::chance(1, 4)) { buf = "low"; buffer(); }
	if (!(b == 3 && d.empty()) && vs::chance(1, 2))
	{
		lo = vs::rnd(0, std::min<int>(3, d.size()));
		if (vs::chance(1, 2)) s = make_shared_ptr<ByteStreamWithOffset>(s, lo);
		else { int n = vs::rnd(1, 6); hi = lo + n; s = make_shared_ptr<ByteStreamWithOffsetAndSize>(s, lo, n); }
	}
	else if (!buf.empty()) buf = "top";
	if (b != 3 && buf.empty() && vs::chance(1, 3)) { buf = "top"; buffer(); }
	vs::ev("cfg").s("b", names[b]).i("k", k).i("lo", lo).i("hi", hi).s("buf", buf).i("al", al).li("d", d);
	DummyCancellationToken tk;
	for (int i = vs::rnd(1, 14); i > 0; --i)
		switch (vs::rnd(0, 9))
		{
		case 0: case 1: case 2:
		{
			int n = vs::rnd(0, 5), r; std::vector<u8> x(n + 1, 0);
			try { r = s->Read(ByteData(x.data(), n), tk); } catch (const std::exception&) { r = -1; }
			vs::ev("read").i("n", n).i("r", r).li("d", r > 0 && r <= n ? Ints(x.begin(), x.begin() + r) : Ints()); break;
		}
		case 3: case 4: case 5:
		{
			Ints w = rndBytes(0, 4); std::vector<u8> x(w.begin(), w.end()); int r;
			try { r = s->Write(ConstByteData(x.data(), x.size()), tk); } catch (const std::exception&) { r = -1; }
			vs::ev("write").li("d", w).i("r", r); break;
		}
		case 6: case 7:
		{
			int m = vs::rnd(0, 2), o = m == 0 ? vs::rnd(-1, 8) : m == 1 ? vs::rnd(-4, 4) : vs::rnd(-6, 1), ok = 1;
			try { if (m == 0 && vs::chance(1, 2)) s->Seek(o); else s->Seek(o, m == 0 ? SeekMode::Begin : m == 1 ? SeekMode::Current : SeekMode::End); } catch (const std::exception&) { ok = 0; }
			vs::ev("seek").i("o", o).s("m", m == 0 ? "b" : m == 1 ? "c" : "e").i("ok", ok); break;
		}
		case 8: { int r; try { r = s->Tell(); } catch (const std::exception&) { r = -1; } vs::ev("tell").i("r", r); break; }
		default:
			if (b == 3) break;
			{ optional<std::string> l; int f = 0; try { l = ReadLine(*s); f = (bool)l; } catch (const std::exception&) { f = -1; } vs::ev("line").i("f", f).li("d", l ? toInts(*l) : Ints()); }
		}
	vs::ev("all").li("d", all());
}
int main(int argc, char** argv) { return vs::main(argc, argv, run); }
