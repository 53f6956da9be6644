// PagedBuffer over pages in memory: several writers, one or two readers, pops, seeks, failing pages, cancellation.
#include "drv.h"
#include <stingraykit/io/PagedBuffer.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
using namespace stingray; using namespace drv;
static int failing;
static void MaybeFail(bool& shortWrite)
{
	shortWrite = false;
	if (!failing || !vs::chance(1, failing)) return;
	vs::ev("fail");
	if (vs::chance(1, 2)) throw TestError(9);
	shortWrite = true;
}
struct Buffer : public PagedBuffer
{
	struct Page : public IPage
	{
		size_t chunk; std::vector<u8> data;
		Page(size_t c) : chunk(c) { }
		size_t Read(u64 offset, IDataConsumer& consumer, const ICancellationToken& token) override
		{
			std::vector<u8> d;
			vs::point();
			{ vs::no_preempt np; if (offset < data.size()) d.assign(data.begin() + offset, data.end()); }
			vs::point();
			return d.empty() ? 0 : consumer.Process(ConstByteData(d.data(), d.size()), token);
		}
		size_t Write(u64 offset, ConstByteData d, const ICancellationToken&) override
		{
			bool sh; vs::point(); MaybeFail(sh);
			if (sh) return d.size() - 1;
			{ vs::no_preempt np; data.resize(offset); data.insert(data.end(), d.begin(), d.end()); }
			vs::point();
			return d.size();
		}
	};
	Buffer(int ps, int ch) : PagedBuffer("buf", ps, ch) { }
	IPagePtr CreatePage(size_t ch) override { return make_shared_ptr<Page>(ch); }
};
struct World { CancellationToken cancel[10]; int next, ch; std::unique_ptr<Buffer> b; };
static World* W;
static std::vector<int> ints(const u8* p, size_t n) { return std::vector<int>(p, p + n); }
struct Consumer : public virtual IDataConsumer
{
	size_t Process(ConstByteData data, const ICancellationToken&) override
	{
		vs::ev("data").li("d", ints(data.data(), data.size()));
		if (vs::chance(1, 4)) vs::sleep_ms(vs::rnd(1, 3));
		int k = vs::rnd(0, 9), n = data.size();
		if (k == 0) { vs::ev("consumed").i("r", -1); throw TestError(1); }
		int r = k < 5 ? n : k < 6 ? 0 : k < 9 ? vs::rnd(0, n / W->ch) * W->ch : vs::rnd(0, n);
		vs::ev("consumed").i("r", r);
		return r;
	}
	void EndOfData(const ICancellationToken&) override { vs::ev("eod"); }
};
static void push(const std::vector<u8>& d)
{
	int r = 0;
	call("push").li("d", ints(d.data(), d.size()));
	try { W->b->Push(ConstByteData(d.data(), d.size()), W->cancel[vs::tid()]); } catch (const OperationCancelledException&) { r = -1; } catch (const TimeoutException&) { r = -9; } catch (const InputOutputException&) { r = -2; } catch (const TestError&) { r = -2; } catch (const std::exception&) { r = -8; }
	ret("push").i("r", r);
}
static void read()
{
	Consumer c; int r = 0;
	call("read");
	try { W->b->Read(c, W->cancel[vs::tid()]); } catch (const InvalidOperationException&) { r = -1; } catch (const OperationCancelledException&) { r = -3; } catch (const TestError&) { r = -4; } catch (const std::exception&) { r = -8; }
	ret("read").i("r", r);
}
static void size() { call("size"); int r = W->b->GetStorageSize(); ret("size").i("r", r); }
static void pop(int n)
{
	int r = 0; call("pop").i("n", n);
	try { W->b->Pop(n); } catch (const IndexOutOfRangeException&) { r = -1; } catch (const ArgumentException&) { r = -1; } catch (const std::exception&) { r = -8; }
	ret("pop").i("r", r);
}
static void seek(int n)
{
	int r = 0; call("seek").i("n", n);
	try { W->b->Seek(n); } catch (const IndexOutOfRangeException&) { r = -1; } catch (const ArgumentException&) { r = -1; } catch (const std::exception&) { r = -8; }
	ret("seek").i("r", r);
}
static void cancel(int x) { call("cancel").i("x", x); W->cancel[x].Cancel(); ret("cancel").i("x", x); }
int main(int argc, char** argv)
{
	Logger::SetLogLevel(LogLevel::Error);
	return vs::main(argc, argv, []{
		World w; W = &w; w.next = 0;
		bool spur = vs::chance(1, 4), jit = spur || vs::chance(1, 3); vs::set_time_jitter(jit); vs::set_spurious(spur);
		int ch = vs::chance(1, 2) ? 1 : vs::rnd(1, 3), ps = ch * vs::rnd(1, 4);
		w.ch = ch; failing = vs::chance(1, 4) ? 4 : 0;
		vs::ev("cfg").i("ps", ps).i("ch", ch).i("spur", spur);
		w.b.reset(new Buffer(ps, ch));
		int nw = vs::chance(2, 3) ? 1 : 2;
		for (int t = 1; t <= nw; ++t) vs::spawn(t, [&]{
			for (int i = vs::rnd(1, 5); i > 0; --i)
			{
				std::vector<u8> d; int k = vs::chance(1, 2) ? vs::rnd(0, 2 * ps + 1) : vs::chance(1, 2) ? ch : ps;
				{ vs::no_preempt np; for (int j = 0; j < k; ++j) d.push_back(1 + w.next++ % 250); }
				if (vs::chance(1, 8)) vs::sleep_ms(vs::rnd(1, 6));
				push(d);
			}
		});
		vs::spawn(3, [&]{ for (int i = vs::rnd(1, 8); i > 0; --i) { if (vs::chance(1, 12)) vs::sleep_ms(vs::rnd(1, 6)); else read(); } });
		if (vs::chance(1, 6)) vs::spawn(4, [&]{ read(); }); else vs::spawn(4, []{});
		vs::spawn(5, [&]{ for (int i = vs::rnd(0, 5); i > 0; --i) { int k = vs::rnd(0, 9), n = vs::chance(1, 8) ? vs::rnd(0, ps) : ch * vs::rnd(0, ps / ch); if (k < 3) vs::sleep_ms(vs::rnd(1, 6)); else if (k < 6) pop(n); else if (k < 8) seek(n); else size(); } });
		auto idle = [&]{ if (jit || spur) return; vs::sleep_us(500); vs::ev("idle"); vs::sleep_us(500); };
		for (int i = vs::rnd(0, 2); i > 0; --i) { vs::sleep_ms(vs::rnd(1, 12)); if (vs::chance(1, 4)) cancel(vs::rnd(1, 4)); if (vs::chance(1, 2)) vs::sleep_ms(20); }
		vs::sleep_ms(60); idle();
		for (int t = 1; t <= 4; ++t) cancel(t);
		vs::join(5); for (int t = 1; t <= nw; ++t) vs::join(t); vs::join(3); vs::join(4);
		size(); seek(0);
		// everything stored comes out
		vs::spawn(6, []{ vs::sleep_ms(100); cancel(0); });
		for (bool more = true; more; )
		{
			struct All : public virtual IDataConsumer
			{
				bool got;
				size_t Process(ConstByteData d, const ICancellationToken&) override { got = true; vs::ev("data").li("d", ints(d.data(), d.size())); vs::ev("consumed").i("r", d.size()); return d.size(); }
				void EndOfData(const ICancellationToken&) override { }
			} c; c.got = false;
			int r = 0;
			call("read"); try { w.b->Read(c, w.cancel[0]); } catch (const OperationCancelledException&) { r = -3; } catch (const std::exception&) { r = -8; } ret("read").i("r", r);
			more = c.got && r == 0;
		}
		vs::join(6);
	});
}
