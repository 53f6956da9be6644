// AsyncByteStream over a recording stream that writes partially, fails and takes its time.
#include "drv.h"
#include <stingraykit/io/AsyncByteStream.h>
#include <stingraykit/io/ISyncableByteStream.h>
#include <stingraykit/thread/CancellationToken.h>
using namespace stingray; using namespace drv;
static std::vector<int> ints(const u8* p, size_t n) { return std::vector<int>(p, p + n); }
static int failing, slow, partial;
struct Under : public virtual ISyncableByteStream
{
	u64 pos, len; bool busy;
	Under(u64 p, u64 l) : pos(p), len(l), busy(false) { }
	void Enter() { vs::no_preempt np; if (busy) vs::ev("uoverlap"); busy = true; }
	void Fail() { if (failing && vs::chance(1, failing)) { vs::ev("ufail"); busy = false; throw TestError(5); } }
	u64 Read(ByteData, const ICancellationToken&) override { vs::ev("uread"); return 0; }
	u64 Write(ConstByteData d, const ICancellationToken&) override
	{
		Enter();
		if (slow && vs::chance(1, slow)) vs::sleep_ms(vs::rnd(1, 1500));
		vs::point(); Fail();
		size_t r = partial && vs::chance(1, partial) ? vs::rnd(0, d.size()) : d.size();
		vs::point();
		{ vs::no_preempt np; vs::ev("uwrite").i("off", pos).li("d", ints(d.data(), d.size())).i("r", r); pos += r; len = std::max(len, pos); busy = false; }
		return r;
	}
	void Seek(s64 off, SeekMode mode) override { vs::no_preempt np; pos = mode == SeekMode::Begin ? off : mode == SeekMode::Current ? pos + off : len + off; }
	u64 Tell() const override { return pos; }
	virtual void DoSync() { Enter(); vs::point(); Fail(); if (slow && vs::chance(1, slow)) vs::sleep_ms(vs::rnd(1, 1500)); { vs::no_preempt np; vs::ev("usync"); busy = false; } }
	void Sync() override { DoSync(); }
};
struct PlainUnder : public virtual IByteStream // cannot sync
{
	Under u;
	PlainUnder(u64 p, u64 l) : u(p, l) { }
	u64 Read(ByteData d, const ICancellationToken& t) override { return u.Read(d, t); }
	u64 Write(ConstByteData d, const ICancellationToken& t) override { return u.Write(d, t); }
	void Seek(s64 off, SeekMode mode) override { u.Seek(off, mode); }
	u64 Tell() const override { return u.Tell(); }
};
static AsyncByteStream* S;
static void sync() { int r = 0; call("sync"); try { S->Sync(); } catch (const std::exception&) { r = -1; } ret("sync").i("r", r); }
static AsyncByteStream::Config config(bool nb)
{
	AsyncByteStream::Config c; c.MergeablePagesHint(1).SubStreamsHint(1).PageSize(1);
	int page = vs::rnd(1, 4), buf = 2 * page * vs::rnd(1, 3) + vs::rnd(0, 2);
	c.PageSize(page).BufferSize(std::max(buf, 2 * page));
	if (nb) c.EnableNonBlockingSync();
	return c;
}
int main(int argc, char** argv)
{
	Logger::SetLogLevel((LogLevel::Enum)(LogLevel::Error + 1));
	return vs::main(argc, argv, []{
		bool spur = vs::chance(1, 4), jit = spur || vs::chance(1, 3); vs::set_time_jitter(jit); vs::set_spurious(spur);
		const int mx = 14;
		bool nb = vs::chance(1, 5), sy = vs::chance(3, 4);
		failing = vs::chance(1, 5) ? 8 : 0; slow = vs::chance(1, 2) ? 3 : 0; partial = vs::chance(1, 2) ? 3 : 0;
		int pos = vs::chance(1, 3) ? vs::rnd(0, 4) : 0, len = pos + (vs::chance(1, 3) ? vs::rnd(0, 4) : 0);
		vs::ev("cfg").i("max", mx).i("nb", nb).i("sy", sy).i("pos", pos).i("len", len);
		IByteStreamPtr u; if (sy) u = make_shared_ptr<Under>(pos, len); else u = make_shared_ptr<PlainUnder>(pos, len);
		{
			AsyncByteStream s("s", u, config(nb)); S = &s;
			int next = 0, end = len;
			if (vs::chance(1, 3)) vs::spawn(2, []{ if (vs::chance(1, 2)) vs::sleep_ms(vs::rnd(1, 1500)); sync(); }); else vs::spawn(2, []{});
			for (int i = vs::rnd(2, 12); i > 0; --i)
			{
				int k = vs::rnd(0, 15);
				if (k < 8)
				{
					std::vector<u8> d; int n = vs::rnd(0, 5); if (pos + n > mx) n = std::max(0, mx - pos);
					for (int j = 0; j < n; ++j) d.push_back(1 + next++);
					int r; call("write").li("d", ints(d.data(), d.size()));
					try { r = s.Write(ConstByteData(d.data(), d.size()), DummyCancellationToken()); } catch (const std::exception&) { r = -1; }
					ret("write").i("r", r);
					if (r > 0) { pos += r; end = std::max(end, pos); }
				}
				else if (k < 12)
				{
					int m = vs::rnd(0, 2), base = m == 0 ? 0 : m == 1 ? pos : end, off = vs::rnd(0, 8) - base, r = 0;
					if (vs::chance(1, 15)) off = -base - 1;
					try { s.Seek(off, m == 0 ? SeekMode::Begin : m == 1 ? SeekMode::Current : SeekMode::End); } catch (const IndexOutOfRangeException&) { r = -2; } catch (const std::exception&) { r = -1; }
					vs::ev("seek").i("m", m).i("off", off).i("r", r);
					if (r == 0) pos = base + off;
				}
				else if (k == 12) { int r; try { r = s.Tell(); } catch (const std::exception&) { r = -1; } vs::ev("tell").i("r", r); }
				else if (k == 13) { if (vs::chance(1, 2)) sync(); else { int r = 0; try { s.Reconfigure(config(nb)); } catch (const std::exception&) { r = -1; } vs::ev("reconf").i("r", r); } }
				else if (k == 14) vs::sleep_ms(vs::rnd(1, 2000));
				else if (!jit && !spur) { vs::join(2); vs::sleep_ms(60000); vs::ev("idle"); }
			}
			vs::join(2);
		}
		vs::ev("destroyed");
	});
}
