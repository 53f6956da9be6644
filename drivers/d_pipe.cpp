// Pipes: BithreadPipe, BufferedPipe in front of it, SynchronizedPipe with several writers, PipeReader.
#include "drv.h"
#include <stingraykit/io/BithreadPipe.h>
#include <stingraykit/io/BufferedPipe.h>
#include <stingraykit/io/SynchronizedPipe.h>
#include <stingraykit/io/PipeReader.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
using namespace stingray; using namespace drv;
#define NOW .i("now", vs::now_ms())
struct World { CancellationToken cancel[8]; int next; bool lines; };
static World* W;
static std::vector<int> ints(const u8* p, size_t n) { return std::vector<int>(p, p + n); }
template <class F> static void with(vs::ev&& e, F f)
{	// a token: none, cancellable (by thread number), timed
	int k = vs::rnd(0, 9), to = vs::rnd(1, 12);
	DummyCancellationToken dummy; std::unique_ptr<TimedCancellationToken> timed; const ICancellationToken* tok = &dummy;
	int c = 0, dl = -1;
	{
		vs::no_preempt np;
		if (k < 7) { c = vs::tid(); tok = &W->cancel[c]; }
		else if (k < 9) { c = vs::tid(); dl = vs::now_ms() + to; timed.reset(new TimedCancellationToken(W->cancel[c], TimeDuration(to))); tok = timed.get(); }
		else { c = vs::tid(); tok = &W->cancel[c]; }
		{ vs::ev x(std::move(e)); x.i("c", c).i("dl", dl); }
	}
	f(*tok);
}
static void write(IPipe& p, int n)
{
	std::vector<u8> d;
	{ vs::no_preempt np; for (int i = 0; i < n; ++i) { int x = W->lines ? vs::rnd(0, 9) : 0; d.push_back(W->lines && x < 3 ? '\n' : W->lines && x < 4 ? '\r' : 20 + W->next++ % 200); } }
	d.reserve(16);
	with(std::move(call("write").li("d", ints(d.data(), n))), [&](const ICancellationToken& tok) {
		const char* r = "ok"; int k = 0;
		try { k = p.Write(ConstByteData(d.data(), n), tok); } catch (const OperationCancelledException&) { r = "cancelled"; } catch (const TimeoutException&) { r = "timeout"; } catch (const std::exception& ex) { r = "exc"; }
		ret("write").s("r", r).i("n", k) NOW;
	});
	for (size_t i = 0; i < d.size(); ++i) d[i] = 255; // the block must not be read after Write has returned
}
static void read(IPipe& p, int n)
{
	std::vector<u8> d(16);
	with(std::move(call("read").i("n", n)), [&](const ICancellationToken& tok) {
		const char* r = "ok"; int k = 0;
		try { k = p.Read(ByteData(d.data(), n), tok); } catch (const OperationCancelledException&) { r = "cancelled"; } catch (const TimeoutException&) { r = "timeout"; } catch (const std::exception& ex) { r = "exc"; }
		ret("read").s("r", r).li("d", ints(d.data(), k)) NOW;
	});
}
static void line(PipeReader& p)
{
	with(std::move(call("line")), [&](const ICancellationToken& tok) {
		const char* r = "ok"; std::string s;
		try { s = p.ReadLine(tok); } catch (const OperationCancelledException&) { r = "cancelled"; } catch (const TimeoutException&) { r = "timeout"; } catch (const NotSupportedException&) { r = "bad"; } catch (const std::exception& ex) { r = "exc"; }
		ret("line").s("r", r).li("d", ints((const u8*)s.data(), s.size())) NOW;
	});
}
static void cancel(int c) { call("cancel").i("c", c); W->cancel[c].Cancel(); ret("cancel").i("c", c); }
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		World w; W = &w; w.next = 0; w.lines = vs::chance(1, 3);
		bool spur = vs::chance(1, 3), jit = spur || vs::chance(1, 3); vs::set_time_jitter(jit); vs::set_spurious(spur);
		int bcap = vs::chance(1, 2) ? vs::rnd(1, 4) : 0, nw = vs::rnd(1, 3); bool sync = nw > 1 || vs::chance(1, 4);
		vs::ev("cfg").i("b", bcap).i("sync", sync);
		IPipePtr base = make_shared_ptr<BithreadPipe>(), rp = base, wp = base;
		if (bcap) rp = make_shared_ptr<BufferedPipe>(base, bcap);
		if (sync) wp = make_shared_ptr<SynchronizedPipe>(base);
		PipeReader pr(rp);
		auto idle = [&]{ if (jit || spur) return; vs::sleep_us(500); vs::ev("idle") NOW; vs::sleep_us(500); };
		for (int t = 1; t <= nw; ++t)
			vs::spawn(t, [&]{ for (int i = vs::rnd(1, 4); i > 0; --i) { if (vs::chance(1, 5)) vs::sleep_ms(vs::rnd(1, 8)); write(*wp, !w.lines && vs::chance(1, 10) ? 0 : vs::rnd(1, 5)); } });
		vs::spawn(4, [&]{
			for (int i = vs::rnd(1, 8); i > 0; --i)
			{
				int x = vs::rnd(0, 9);
				if (x == 0) vs::sleep_ms(vs::rnd(1, 8));
				else if (x == 1) { call("peek"); bool r = rp->Peek(); ret("peek").i("r", r); }
				else if (w.lines && x < 8) line(pr);
				else read(*rp, vs::chance(1, 15) ? 0 : vs::rnd(1, 5));
			}
		});
		if (!bcap && vs::chance(1, 4)) vs::spawn(5, [&]{ for (int i = 0; i < 2; ++i) { call("peek"); bool r = base->Peek(); ret("peek").i("r", r); vs::sleep_ms(1); } }); else vs::spawn(5, []{});
		for (int i = vs::rnd(0, 2); i > 0; --i) { vs::sleep_ms(vs::rnd(1, 12)); if (vs::chance(1, 3)) cancel(vs::rnd(1, 4)); idle(); }
		vs::sleep_ms(25); idle();
		for (int t = 1; t <= 4; ++t) cancel(t);
		for (int t = 1; t <= 5; ++t) if (t <= nw || t >= 4) vs::join(t);
		idle();
	});
}
