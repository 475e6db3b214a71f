// The sound layer of the examples with its ALSA backend, as it is; the sound system behind it is simulated.
#define __LINUX_ALSA__
#include "../examples/RtAudio/RtAudio.cpp"
