#include "common.h"
#include "bitstream.h"
#include "fsk.h"

using namespace dcp;

int main()
{
	Ops ops;
	// bits already written, from where on a CRC is running (-1: none), its polynomial, operation, value, bits
	ops["bits"] = [](In& in, Out& out) {
		auto d = in.is();
		auto from = in.i();
		auto poly = in.i();
		auto op = in.i();
		auto value = in.u();
		auto n = in.i();
		Bitstream b;
		for (int i = 0; i <= int(d.size()); ++i) {
			if (i == from) b.start_crc(poly);
			if (i < int(d.size())) b.write_bit(d[i]);
		}
		switch (op) {
		case 0: b.write_bit(value); break;
		case 1: b.write_from_byte(value, n); break;
		case 2: b.write_from_word(value, n); break;
		case 3: b.start_crc(value); break;
		case 4: b.write_crc(); break;
		case 5: b.write_from_byte(value); break;
		case 6: b.write_from_word(value); break;
		}
		auto first = b.get();
		out.is(first);
		// what happens next tells the state of the CRC
		std::vector<bool> after;
		bool running = true;
		try { b.write_crc(); after = b.get(); } catch (...) { running = false; }
		out.b(running);
		out.is(after);
	};
	// earlier data sent in full, then new data of which n samples are taken
	ops["fsk"] = [](In& in, Out& out) {
		auto h = in.is();
		auto d = in.is();
		auto n = in.i();
		FSK f;
		std::vector<long long> r;
		if (!h.empty()) {
			f.set_data(std::vector<bool>(h.begin(), h.end()));
			for (size_t i = 0; i < 4 * h.size(); ++i) r.push_back(f.get());
		}
		f.set_data(std::vector<bool>(d.begin(), d.end()));
		for (int i = 0; i < n; ++i) r.push_back(f.get());
		out.is(r);
	};
	return serve(ops);
}
