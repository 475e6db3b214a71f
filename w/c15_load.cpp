// The loader of the examples, as it is; the sound files behind it are simulated.
#include "../examples/Tools/LoadSound.cpp"
