// DataBuffer (SharedCircularBuffer, BufferedDataConsumer, BufferedDataSource) with several writers, one reader and control operations.
#include "drv.h"
#include <stingraykit/io/DataBuffer.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/CancellationToken.h>
using namespace stingray; using namespace drv;
struct World { CancellationToken cancel[10]; int next, op; std::unique_ptr<DataBuffer> b; };
static World* W;
static std::vector<int> ints(const u8* p, size_t n) { return std::vector<int>(p, p + n); }
struct Consumer : public virtual IDataConsumer
{
	size_t Process(ConstByteData data, const ICancellationToken&) override
	{
		std::vector<int> d;
		for (size_t i = 0; i < data.size(); ++i) { if (i % 2) vs::point(); d.push_back(data[i]); }
		vs::ev("data").li("d", d);
		if (vs::chance(1, 5)) { vs::sleep_ms(vs::rnd(1, 3)); vs::ev("data").li("d", ints(data.data(), data.size())); }
		int k = vs::rnd(0, 9), n = data.size(), op = W->op;
		if (k == 0) { vs::ev("consumed").i("r", -1); throw TestError(1); }
		int r = k < 5 ? n : k < 6 ? 0 : vs::rnd(0, n / op) * op;
		if (k == 9) r = vs::rnd(0, n);
		vs::ev("consumed").i("r", r);
		return r;
	}
	void EndOfData(const ICancellationToken&) override { vs::ev("eod"); }
};
static void overflow(size_t n) { vs::ev("overflow").i("n", n); }
static int write(const std::vector<u8>& d)
{
	call("write").li("d", ints(d.data(), d.size()));
	int r; try { r = W->b->Process(ConstByteData(d.data(), d.size()), W->cancel[vs::tid()]); } catch (const InvalidOperationException&) { r = -1; }
	ret("write").i("r", r);
	return r;
}
static void read()
{
	Consumer c; int r = 0;
	call("read");
	try { W->b->Read(c, W->cancel[vs::tid()]); } catch (const InvalidOperationException&) { r = -1; } catch (const TestError&) { r = -4; } catch (const std::exception&) { r = -2; }
	ret("read").i("r", r);
}
static void waitdata(int n)
{
	int r = 0;
	call("waitdata").i("n", n);
	try { W->b->WaitForData(n, W->cancel[vs::tid()]); } catch (const InvalidOperationException&) { r = -1; } catch (const ArgumentException&) { r = -3; }
	ret("waitdata").i("r", r);
}
static void control(int k)
{
	int r = 0;
	if (k == 0) { call("seteod"); try { W->b->EndOfData(DummyCancellationToken()); } catch (const InvalidOperationException&) { r = -1; } ret("seteod").i("r", r); }
	else if (k == 1) { call("setexc"); try { W->b->SetException(TestError(7), DummyCancellationToken()); } catch (const InvalidOperationException&) { r = -1; } ret("setexc").i("r", r); }
	else if (k == 2) { call("clear"); try { W->b->Clear(); } catch (const InvalidOperationException&) { r = -1; } ret("clear").i("r", r); }
	else if (k == 3) { call("size"); r = W->b->GetDataSize(); ret("size").i("r", r); }
	else if (k == 4) { call("free"); r = W->b->GetFreeSize(); ret("free").i("r", r); }
	else { call("ended"); r = W->b->HasEndOfDataOrException(); ret("ended").i("r", r); }
}
static void cancel(int x) { call("cancel").i("x", x); W->cancel[x].Cancel(); ret("cancel").i("x", x); }
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		World w; W = &w; w.next = 0;
		bool spur = vs::chance(1, 4), jit = spur || vs::chance(1, 3); vs::set_time_jitter(jit); vs::set_spurious(spur);
		int ip = vs::chance(1, 2) ? 1 : vs::rnd(1, 3), op = vs::chance(1, 2) ? 1 : vs::rnd(1, 3), n = ip * op * vs::rnd(1, 3);
		if (n > 8) n = ip * op;
		int req = vs::chance(1, 3) ? vs::rnd(0, n) : 0; bool disc = vs::chance(1, 4);
		w.op = op;
		vs::ev("cfg").i("n", n).i("ip", ip).i("op", op).i("req", req).i("disc", disc).i("spur", spur);
		DataBuffer::Parameters par; par.SetInputPacketSize(ip).SetOutputPacketSize(op).SetRequiredFreeSpace(req);
		w.b.reset(new DataBuffer(disc, n, par));
		Token conn = w.b->OnOverflow().connect(&overflow);
		int nw = vs::chance(1, 2) ? 1 : 2;
		for (int t = 1; t <= nw; ++t) vs::spawn(t, [&]{
			for (int i = vs::rnd(1, 4); i > 0; --i)
			{
				std::vector<u8> d; int k = vs::chance(1, 12) ? vs::rnd(0, n + 1) : ip * vs::rnd(1, n / ip + 1);
				{ vs::no_preempt np; for (int j = 0; j < k; ++j) d.push_back(1 + w.next++ % 250); }
				if (vs::chance(1, 8)) { vs::sleep_ms(vs::rnd(1, 6)); }
				for (int tries = 0; tries < 4 && !d.empty(); ++tries) { int r = write(d); if (r < 0) break; d.erase(d.begin(), d.begin() + std::min<int>(r, d.size())); if (vs::chance(1, 5)) break; }
			}
		});
		vs::spawn(3, [&]{ for (int i = vs::rnd(1, 8); i > 0; --i) { int k = vs::rnd(0, 19); if (k < 1) vs::sleep_ms(vs::rnd(1, 6)); else if (k < 4) waitdata(vs::chance(1, 6) ? vs::rnd(0, n) : op * vs::rnd(1, n / op)); else read(); } });
		if (vs::chance(1, 6)) vs::spawn(4, [&]{ read(); }); else vs::spawn(4, []{});
		vs::spawn(5, [&]{ for (int i = vs::rnd(0, 4); i > 0; --i) { int k = vs::rnd(0, 9); if (k < 2) vs::sleep_ms(vs::rnd(1, 6)); else if (k < 3) control(0); else if (k < 4) control(1); else if (k < 6) control(2); else control(vs::rnd(3, 5)); } });
		auto idle = [&]{ if (jit || spur) return; vs::sleep_us(500); vs::ev("idle"); vs::sleep_us(500); };
		for (int i = vs::rnd(0, 2); i > 0; --i) { vs::sleep_ms(vs::rnd(1, 12)); if (vs::chance(1, 3)) cancel(vs::rnd(1, 4)); idle(); }
		vs::sleep_ms(50); idle();
		for (int t = 1; t <= 4; ++t) cancel(t);
		vs::join(5); for (int t = 1; t <= nw; ++t) vs::join(t); vs::join(3); vs::join(4);
		control(3); control(4); control(5); control(2); control(3);
	});
}
