// The part of the ALSA library interface that RtAudio uses; implemented by the simulated sound system (w/alsa_sim.cpp).
#pragma once
#include <alloca.h>
#include <climits>
#include <cstdio>
#include <cstring>

extern "C" {

typedef unsigned long snd_pcm_uframes_t;
typedef long snd_pcm_sframes_t;
typedef struct sim_snd_pcm snd_pcm_t;
typedef struct sim_snd_ctl snd_ctl_t;

typedef enum { SND_PCM_STREAM_PLAYBACK = 0, SND_PCM_STREAM_CAPTURE } snd_pcm_stream_t;
typedef enum {
	SND_PCM_STATE_OPEN = 0,
	SND_PCM_STATE_SETUP,
	SND_PCM_STATE_PREPARED,
	SND_PCM_STATE_RUNNING,
	SND_PCM_STATE_XRUN,
	SND_PCM_STATE_DRAINING,
	SND_PCM_STATE_PAUSED,
	SND_PCM_STATE_SUSPENDED,
	SND_PCM_STATE_DISCONNECTED
} snd_pcm_state_t;
typedef enum { SND_PCM_ACCESS_RW_INTERLEAVED = 3, SND_PCM_ACCESS_RW_NONINTERLEAVED = 4 } snd_pcm_access_t;
typedef enum {
	SND_PCM_FORMAT_UNKNOWN = -1,
	SND_PCM_FORMAT_S8 = 0,
	SND_PCM_FORMAT_S16 = 2,
	SND_PCM_FORMAT_S24 = 6,
	SND_PCM_FORMAT_S32 = 10,
	SND_PCM_FORMAT_FLOAT = 14,
	SND_PCM_FORMAT_FLOAT64 = 16,
	SND_PCM_FORMAT_S24_3LE = 32
} snd_pcm_format_t;

#define SND_PCM_NONBLOCK 1
#define SND_PCM_ASYNC 2
#define SND_CTL_NONBLOCK 1

struct sim_snd_hw {
	snd_pcm_t* pcm;
	int access, format;
	unsigned channels, rate, periods;
	snd_pcm_uframes_t period;
};
struct sim_snd_sw {
	snd_pcm_t* pcm;
	snd_pcm_uframes_t start, stop, silence;
};
struct sim_snd_info {
	int stream, device, subdevice;
};
typedef struct sim_snd_hw snd_pcm_hw_params_t;
typedef struct sim_snd_sw snd_pcm_sw_params_t;
typedef struct sim_snd_info snd_pcm_info_t;
#define snd_pcm_hw_params_alloca(p) (*(p) = (snd_pcm_hw_params_t*)memset(alloca(sizeof(snd_pcm_hw_params_t)), 0, sizeof(snd_pcm_hw_params_t)))
#define snd_pcm_sw_params_alloca(p) (*(p) = (snd_pcm_sw_params_t*)memset(alloca(sizeof(snd_pcm_sw_params_t)), 0, sizeof(snd_pcm_sw_params_t)))
#define snd_pcm_info_alloca(p) (*(p) = (snd_pcm_info_t*)memset(alloca(sizeof(snd_pcm_info_t)), 0, sizeof(snd_pcm_info_t)))

const char* snd_strerror(int);
const char* snd_pcm_state_name(snd_pcm_state_t);
int snd_card_next(int* card);
int snd_card_get_name(int card, char** name);
int snd_ctl_open(snd_ctl_t** ctl, const char* name, int mode);
int snd_ctl_close(snd_ctl_t* ctl);
int snd_ctl_pcm_next_device(snd_ctl_t* ctl, int* device);
int snd_ctl_pcm_info(snd_ctl_t* ctl, snd_pcm_info_t* info);
void snd_pcm_info_set_stream(snd_pcm_info_t*, snd_pcm_stream_t);
void snd_pcm_info_set_device(snd_pcm_info_t*, unsigned);
void snd_pcm_info_set_subdevice(snd_pcm_info_t*, unsigned);
int snd_pcm_open(snd_pcm_t** pcm, const char* name, snd_pcm_stream_t stream, int mode);
int snd_pcm_close(snd_pcm_t* pcm);
int snd_pcm_hw_params_any(snd_pcm_t*, snd_pcm_hw_params_t*);
int snd_pcm_hw_params_set_access(snd_pcm_t*, snd_pcm_hw_params_t*, snd_pcm_access_t);
int snd_pcm_hw_params_test_format(snd_pcm_t*, snd_pcm_hw_params_t*, snd_pcm_format_t);
int snd_pcm_hw_params_set_format(snd_pcm_t*, snd_pcm_hw_params_t*, snd_pcm_format_t);
int snd_pcm_format_cpu_endian(snd_pcm_format_t);
int snd_pcm_hw_params_test_rate(snd_pcm_t*, snd_pcm_hw_params_t*, unsigned, int);
int snd_pcm_hw_params_set_rate_near(snd_pcm_t*, snd_pcm_hw_params_t*, unsigned*, int*);
int snd_pcm_hw_params_get_channels_max(const snd_pcm_hw_params_t*, unsigned*);
int snd_pcm_hw_params_get_channels_min(const snd_pcm_hw_params_t*, unsigned*);
int snd_pcm_hw_params_set_channels(snd_pcm_t*, snd_pcm_hw_params_t*, unsigned);
int snd_pcm_hw_params_set_period_size_near(snd_pcm_t*, snd_pcm_hw_params_t*, snd_pcm_uframes_t*, int*);
int snd_pcm_hw_params_set_periods_near(snd_pcm_t*, snd_pcm_hw_params_t*, unsigned*, int*);
int snd_pcm_hw_params(snd_pcm_t*, snd_pcm_hw_params_t*);
int snd_pcm_sw_params_current(snd_pcm_t*, snd_pcm_sw_params_t*);
int snd_pcm_sw_params_set_start_threshold(snd_pcm_t*, snd_pcm_sw_params_t*, snd_pcm_uframes_t);
int snd_pcm_sw_params_set_stop_threshold(snd_pcm_t*, snd_pcm_sw_params_t*, snd_pcm_uframes_t);
int snd_pcm_sw_params_set_silence_threshold(snd_pcm_t*, snd_pcm_sw_params_t*, snd_pcm_uframes_t);
int snd_pcm_sw_params_set_silence_size(snd_pcm_t*, snd_pcm_sw_params_t*, snd_pcm_uframes_t);
int snd_pcm_sw_params_get_boundary(const snd_pcm_sw_params_t*, snd_pcm_uframes_t*);
int snd_pcm_sw_params(snd_pcm_t*, snd_pcm_sw_params_t*);
snd_pcm_state_t snd_pcm_state(snd_pcm_t*);
int snd_pcm_prepare(snd_pcm_t*);
int snd_pcm_drop(snd_pcm_t*);
int snd_pcm_drain(snd_pcm_t*);
int snd_pcm_link(snd_pcm_t*, snd_pcm_t*);
int snd_pcm_delay(snd_pcm_t*, snd_pcm_sframes_t*);
snd_pcm_sframes_t snd_pcm_writei(snd_pcm_t*, const void*, snd_pcm_uframes_t);
snd_pcm_sframes_t snd_pcm_writen(snd_pcm_t*, void**, snd_pcm_uframes_t);
snd_pcm_sframes_t snd_pcm_readi(snd_pcm_t*, void*, snd_pcm_uframes_t);
snd_pcm_sframes_t snd_pcm_readn(snd_pcm_t*, void**, snd_pcm_uframes_t);

} // extern "C"
