// A simulated sound system behind the ALSA interface: cards, devices, their formats and buffers, and their faults.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>

namespace alsasim {

struct Frame {
	float left, right;
	bool exact; // the format can hold the sample exactly
	float step; // otherwise: distance between neighbouring values
};

// What one opened playback device was given, and what came out of the loudspeaker.
struct Record {
	std::vector<Frame> offered;  // every frame the application presented, in order
	std::vector<uint8_t> taken;  // did the device accept that frame?
	std::vector<uint32_t> heard; // which frames (index into offered) were played, in order
	bool open = true;
	bool started = false;
	bool broken = false;      // the device has gone
	bool drainFailed = false; // or could not play its buffer to the end
	bool garbled = false;     // what was presented cannot be made sense of, as is known
	bool junk = false;        // something other than silence on a channel that does not belong to the stream
	unsigned writesFailed = 0, underruns = 0, shortWrites = 0, period = 0;
	unsigned notRecovered = 0; // writes to a device that has run dry and has not been prepared again
};

// Draws the sound system of this run.
void reset();
// Which player the calling thread is; devices it opens belong to it.
void player(int id);
// The playback device player `id` configured last, if it got that far.
Record* record(int id);
unsigned openHandles(int id);
unsigned faultsBeforeStart(int id); // failures injected into player `id`'s way to a running device
bool playable();                    // with no faults, can the default device play this?
void describe(char* to, size_t n);

extern void (*onStart)(int id);

} // namespace alsasim
