// PacketBuffer with several writers, one reader (sometimes two) and control operations.
#include "drv.h"
#include <stingraykit/io/PacketBuffer.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/CancellationToken.h>
using namespace stingray; using namespace drv;
struct World { CancellationToken cancel[10]; int next; std::unique_ptr<PacketBuffer<int>> b; };
static World* W;
static std::vector<int> ints(const u8* p, size_t n) { return std::vector<int>(p, p + n); }
struct Consumer : public virtual IPacketConsumer<int>
{
	bool Process(const Packet<int>& packet, const ICancellationToken&) override
	{
		const ConstByteData data(packet.GetData());
		std::vector<int> d;
		for (size_t i = 0; i < data.size(); ++i) { if (i % 2) vs::point(); d.push_back(data[i]); }
		vs::ev("data").li("d", d).i("md", packet.GetMetadata());
		if (vs::chance(1, 5)) { vs::sleep_ms(vs::rnd(1, 3)); vs::ev("data").li("d", ints(data.data(), data.size())).i("md", packet.GetMetadata()); }
		int k = vs::rnd(0, 9);
		if (k == 0) { vs::ev("consumed").i("r", -1); throw TestError(1); }
		int r = k < 8;
		vs::ev("consumed").i("r", r);
		return r;
	}
	void EndOfData() override { vs::ev("eod"); }
};
static int write(const std::vector<u8>& d, int md)
{
	call("write").li("d", ints(d.data(), d.size())).i("md", md);
	int r; try { r = W->b->Process(Packet<int>(ConstByteData(d.data(), d.size()), md), W->cancel[vs::tid()]); } catch (const std::exception&) { r = -1; }
	ret("write").i("r", r);
	return r;
}
static void read()
{
	Consumer c; int r = 0;
	call("read");
	try { W->b->Read(c, W->cancel[vs::tid()]); } catch (const InvalidOperationException&) { r = -1; } catch (const TestError&) { r = -4; } catch (const std::exception&) { r = -2; }
	ret("read").i("r", r);
}
static void control(int k)
{
	int r = 0;
	if (k == 0) { call("seteod"); W->b->EndOfData(); ret("seteod").i("r", r); }
	else if (k == 1) { call("clear"); try { W->b->Clear(); } catch (const InvalidOperationException&) { r = -1; } ret("clear").i("r", r); }
	else if (k == 2) { call("size"); r = W->b->GetDataSize(); ret("size").i("r", r); }
	else { call("free"); r = W->b->GetFreeSize(); ret("free").i("r", r); }
}
static void cancel(int x) { call("cancel").i("x", x); W->cancel[x].Cancel(); ret("cancel").i("x", x); }
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		World w; W = &w; w.next = 0;
		bool spur = vs::chance(1, 4), jit = spur || vs::chance(1, 3); vs::set_time_jitter(jit); vs::set_spurious(spur);
		int n = vs::rnd(1, 9); bool disc = vs::chance(1, 4);
		vs::ev("cfg").i("n", n).i("disc", disc).i("spur", spur);
		w.b.reset(new PacketBuffer<int>(disc, n));
		int nw = vs::chance(1, 2) ? 1 : 2;
		bool ctl = vs::chance(1, 2), two = vs::chance(1, 6); int mode = vs::rnd(0, 2);
		for (int t = 1; t <= nw; ++t) vs::spawn(t, [&]{
			for (int i = vs::rnd(1, 6); i > 0; --i)
			{
				std::vector<u8> d; int k = vs::chance(1, 15) ? n + 1 : mode == 0 ? vs::rnd(0, n) : mode == 1 ? vs::rnd(1, std::max(1, n / 2)) : vs::rnd(1, n), md;
				{ vs::no_preempt np; md = w.next; for (int j = 0; j < k; ++j) d.push_back(1 + w.next++ % 250); if (!k) w.next++; }
				if (vs::chance(1, 8)) { vs::sleep_ms(vs::rnd(1, 6)); }
				for (int tries = 0; tries < 4; ++tries) { int r = write(d, md); if (r) break; if (vs::chance(1, 5)) break; }
			}
		});
		vs::spawn(3, [&]{ for (int i = vs::rnd(1, 12); i > 0; --i) { int k = vs::rnd(0, 19); if (k < 1) vs::sleep_ms(vs::rnd(1, 6)); else read(); } });
		vs::spawn(4, [&]{ if (two) read(); });
		vs::spawn(5, [&]{ if (!ctl) return; for (int i = vs::rnd(0, 4); i > 0; --i) { int k = vs::rnd(0, 9); if (k < 2) vs::sleep_ms(vs::rnd(1, 6)); else if (k < 4) control(0); else if (k < 6) control(1); else control(vs::rnd(2, 3)); } });
		auto idle = [&]{ if (jit || spur) return; vs::sleep_us(500); vs::ev("idle"); vs::sleep_us(500); };
		for (int i = vs::rnd(0, 2); i > 0; --i) { vs::sleep_ms(vs::rnd(1, 12)); if (vs::chance(1, 3)) cancel(vs::rnd(1, 4)); idle(); }
		vs::sleep_ms(50); idle();
		for (int t = 1; t <= 4; ++t) cancel(t);
		vs::join(5); for (int t = 1; t <= nw; ++t) vs::join(t); vs::join(3); vs::join(4);
		control(2); control(3); control(1); control(2);
	});
}
