From 0ba81cd91ca9adb93f0c36ce98b1969885b5ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 01/22] fix: return *this from FactoredPolynomial's assignment
 operators

---
 include/dspbb/Math/Polynomials.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index bdcc2ef..544e15f 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -173,6 +173,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(FactoredPolynomial&& rhs
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
 	rhs.m_real = {};
 	rhs.m_complex = {};
+	return *this;
 }
 
 template <class T>
@@ -180,6 +181,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(const FactoredPolynomial
 	m_mem = rhs.m_mem,
 	m_real = { m_mem.data(), rhs.m_real.size() },
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
+	return *this;
 }
 
 
-- 
2.43.0


From ec84a1d97bcd3458e7d1275a3664a01ab7f10d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 02/22] fix: keep complex roots when growing the number of real
 roots of a FactoredPolynomial

---
 include/dspbb/Math/Polynomials.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index 544e15f..c64f893 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -222,7 +222,7 @@ void FactoredPolynomial<T>::resize(size_t numRealRoots, size_t numComplexPairs,
 	}
 	m_mem.resize(numCoeffs);
 	if (currentRealRoots < numRealRoots) {
-		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.begin() + (numCoeffs - numRealRoots), m_mem.end());
+		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.end() - (numRealRoots - currentRealRoots), m_mem.end());
 	}
 	m_real = { m_mem.data(), numRealRoots };
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + numRealRoots), numComplexPairs };
-- 
2.43.0


From dec394f85d4661bc8ea637d95a70732d78215446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 03/22] fix: accept empty operands in OverlapAdd

---
 include/dspbb/Math/OverlapAdd.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/dspbb/Math/OverlapAdd.hpp b/include/dspbb/Math/OverlapAdd.hpp
index 4e18b82..828c2d7 100644
--- a/include/dspbb/Math/OverlapAdd.hpp
+++ b/include/dspbb/Math/OverlapAdd.hpp
@@ -122,6 +122,14 @@ void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, size_t offset
 	if (u.size() < v.size()) {
 		return OverlapAdd(out, v, u, offset, chunkSize, clearOut);
 	}
+	if (v.size() == 0) {
+		// Convolution with an empty signal contributes nothing.
+		if (clearOut) {
+			using R = typename signal_traits<std::decay_t<SignalR>>::type;
+			std::fill(out.begin(), out.end(), R(remove_complex_t<R>(0)));
+		}
+		return;
+	}
 	if (chunkSize == 0) {
 		chunkSize = impl::ola::OptimalPracticalSize(u.size(), v.size());
 	}
-- 
2.43.0


From a9eb6515f7e2bccf6eb5380fb8d4ee8b19f58069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 04/22] fix: write the zero samples of Interpolate's output

---
 include/dspbb/Filtering/Resample.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dspbb/Filtering/Resample.hpp b/include/dspbb/Filtering/Resample.hpp
index 8449a26..06f3d72 100644
--- a/include/dspbb/Filtering/Resample.hpp
+++ b/include/dspbb/Filtering/Resample.hpp
@@ -254,6 +254,10 @@ InterpolSuspensionPoint Interpolate(SignalR&& hrOutput,
 			const auto value = DotProduct(lrInputView, lrPhaseView);
 			hrOutput[hrOutputIdx - hrOffset] = value;
 		}
+		else {
+			using R = typename signal_traits<std::decay_t<SignalR>>::type;
+			hrOutput[hrOutputIdx - hrOffset] = R(remove_complex_t<R>(0));
+		}
 	}
 
 	return impl::FindInterpolSuspensionPoint(hrOutputIdx, polyphase.size_original(), polyphase.num_phases());
-- 
2.43.0


From a3d7adb359e125d2763342312fc918c29ba23680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 05/22] fix: normalize the recursive part of DirectFormII

---
 include/dspbb/Filtering/IIR/Realizations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/IIR/Realizations.hpp b/include/dspbb/Filtering/IIR/Realizations.hpp
index 9cbb372..2ac29e2 100644
--- a/include/dspbb/Filtering/IIR/Realizations.hpp
+++ b/include/dspbb/Filtering/IIR/Realizations.hpp
@@ -167,7 +167,7 @@ void DirectFormII<T>::feed(InIter first, InIter last, OutIter outFirst, const Di
 
 	while (first != last) {
 		const auto input = *first++;
-		const auto stateNext = input * normalization - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0));
+		const auto stateNext = (input - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0))) * normalization;
 		std::move(++m_state.begin(), m_state.end(), m_state.begin());
 		*m_state.rbegin() = static_cast<T>(stateNext);
 		const auto output = static_cast<T>(std::inner_product(fwFull.begin(), fwFull.end(), stateFwView.begin(), T(0)));
-- 
2.43.0


From 92666dd6a6cce01b576ec1f83c9c81022f2ce517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 06/22] fix: keep the roots of a FactoredPolynomial when
 resizing it runs out of memory

---
 include/dspbb/Math/Polynomials.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index c64f893..beba544 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -217,6 +217,7 @@ void FactoredPolynomial<T>::resize(size_t numRealRoots, size_t numComplexPairs,
 	const size_t numCoeffs = numRealRoots + 2 * numComplexPairs;
 	const size_t currentRealRoots = num_real_roots();
 	const size_t currentComplexPairs = num_complex_pairs();
+	m_mem.reserve(numCoeffs); // Allocate before moving any root, so that all of them are preserved in case it fails.
 	if (numRealRoots < currentRealRoots) {
 		std::move(m_mem.begin() + currentRealRoots, m_mem.end(), m_mem.begin() + numRealRoots);
 	}
-- 
2.43.0


From f713102e68d20678ddfaeb5adc9c0160611fb3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 07/22] fix: keep the two states of DirectFormI in step when
 memory runs out

---
 include/dspbb/Filtering/IIR/Realizations.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/dspbb/Filtering/IIR/Realizations.hpp b/include/dspbb/Filtering/IIR/Realizations.hpp
index 2ac29e2..92c6c30 100644
--- a/include/dspbb/Filtering/IIR/Realizations.hpp
+++ b/include/dspbb/Filtering/IIR/Realizations.hpp
@@ -18,6 +18,11 @@ class DirectFormI {
 public:
 	DirectFormI() = default;
 	explicit DirectFormI(size_t order);
+	DirectFormI(const DirectFormI&) = default;
+	DirectFormI(DirectFormI&&) noexcept = default;
+	DirectFormI& operator=(const DirectFormI& rhs);
+	DirectFormI& operator=(DirectFormI&&) noexcept = default;
+	~DirectFormI() = default;
 
 	void order(size_t order);
 	void reset();
@@ -39,8 +44,18 @@ DirectFormI<T>::DirectFormI(size_t order) {
 	this->order(order);
 }
 
+template <class T>
+DirectFormI<T>& DirectFormI<T>::operator=(const DirectFormI& rhs) {
+	// The two states must stay in step even if there is only memory for one of them.
+	DirectFormI copy{ rhs };
+	return *this = std::move(copy);
+}
+
 template <class T>
 void DirectFormI<T>::order(size_t order) {
+	// The two states must stay in step even if there is only memory for one of them.
+	recursiveState.reserve(order);
+	forwardState.reserve(order + 1);
 	recursiveState.resize(order, T(0));
 	forwardState.resize(order + 1, T(0));
 }
-- 
2.43.0


From bfd5d1bf1cf6819ec803311ef78ed01a49873bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:32 +0000
Subject: [PATCH 08/22] fix: keep the denominator positive when multiplying a
 Rational by a negative integer

---
 include/dspbb/Math/Rational.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index b87a102..2e43b60 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -61,9 +61,8 @@ constexpr Rational<T> operator-(const Rational<T>& lhs, T rhs) noexcept {
 template <class T>
 constexpr Rational<T> operator*(const Rational<T>& lhs, T rhs) noexcept {
 	const auto simplification = std::gcd(rhs, lhs.Denominator());
-	const auto sign = rhs < 0 ? T(-1) : T(1);
-	return { sign * lhs.Numerator() * (rhs / simplification),
-			 sign * lhs.Denominator() / simplification };
+	return { lhs.Numerator() * (rhs / simplification),
+			 lhs.Denominator() / simplification };
 }
 template <class T>
 constexpr Rational<T> operator/(const Rational<T>& lhs, T rhs) noexcept {
-- 
2.43.0


From 674aab13ae222293a5bbef3b101deedd95804d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 09/22] fix: write the centre tap in ShiftResponse when the
 output is a different signal

---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index 7686214..a871aa9 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -43,6 +43,9 @@ void ShiftResponse(SignalR&& moved, const SignalT& filter, U normalizedFrequency
 		moved[i] = c * filter[i];
 		moved[size - i - 1] = c * filter[size - i - 1];
 	}
+	if (size % 2 != 0) {
+		moved[size / 2] = filter[size / 2];
+	}
 	moved *= typename signal_traits<SignalT>::type(2);
 }
 
-- 
2.43.0


From 7bb2cefef3b8ba5074aacb46fc7339ec4951684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 10/22] fix: write the last coefficient of even-sized least
 squares FIR filters

---
 include/dspbb/Filtering/FIR/LeastSquares.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/FIR/LeastSquares.hpp b/include/dspbb/Filtering/FIR/LeastSquares.hpp
index 21b6e39..61e3c06 100644
--- a/include/dspbb/Filtering/FIR/LeastSquares.hpp
+++ b/include/dspbb/Filtering/FIR/LeastSquares.hpp
@@ -85,6 +85,9 @@ void KernelLeastSquares(SignalR&& coefficients, ResponseFunc responseFunc, Weigh
 		coefficients[i] = halfFilter(filterLength - i - 1);
 		coefficients[i + filterLength - 1] = halfFilter[i];
 	}
+	if (filterLength > 0 && coefficients.size() % 2 == 0) {
+		coefficients[coefficients.size() - 1] = R(0);
+	}
 }
 
 } // namespace dspbb::fir
\ No newline at end of file
-- 
2.43.0


From 569aa44ea18f88c7b3a718c286824b9763f379db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:35 +0000
Subject: [PATCH 11/22] fix: RtAudio ALSA: 24-bit samples are packed, ask the
 device for the packed format

---
 examples/RtAudio/RtAudio.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/examples/RtAudio/RtAudio.cpp b/examples/RtAudio/RtAudio.cpp
index fa1252c..de7140e 100644
--- a/examples/RtAudio/RtAudio.cpp
+++ b/examples/RtAudio/RtAudio.cpp
@@ -7545,7 +7545,7 @@ RtAudio::DeviceInfo RtApiAlsa :: getDeviceInfo( unsigned int device )
   format = SND_PCM_FORMAT_S16;
   if ( snd_pcm_hw_params_test_format( phandle, params, format ) == 0 )
     info.nativeFormats |= RTAUDIO_SINT16;
-  format = SND_PCM_FORMAT_S24;
+  format = SND_PCM_FORMAT_S24_3LE;
   if ( snd_pcm_hw_params_test_format( phandle, params, format ) == 0 )
     info.nativeFormats |= RTAUDIO_SINT24;
   format = SND_PCM_FORMAT_S32;
@@ -7753,7 +7753,7 @@ bool RtApiAlsa :: probeDeviceOpen( unsigned int device, StreamMode mode, unsigne
   else if ( format == RTAUDIO_SINT16 )
     deviceFormat = SND_PCM_FORMAT_S16;
   else if ( format == RTAUDIO_SINT24 )
-    deviceFormat = SND_PCM_FORMAT_S24;
+    deviceFormat = SND_PCM_FORMAT_S24_3LE;
   else if ( format == RTAUDIO_SINT32 )
     deviceFormat = SND_PCM_FORMAT_S32;
   else if ( format == RTAUDIO_FLOAT32 )
@@ -7785,7 +7785,7 @@ bool RtApiAlsa :: probeDeviceOpen( unsigned int device, StreamMode mode, unsigne
     goto setFormat;
   }
 
-  deviceFormat = SND_PCM_FORMAT_S24;
+  deviceFormat = SND_PCM_FORMAT_S24_3LE;
   if ( snd_pcm_hw_params_test_format(phandle, hw_params, deviceFormat ) == 0 ) {
     stream_.deviceFormat[mode] = RTAUDIO_SINT24;
     goto setFormat;
-- 
2.43.0


From 47d4487a3cf55d09b70cd4c765b67791430b19d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:35 +0000
Subject: [PATCH 12/22] fix: RtAudio ALSA: an error while the stream drains
 must not terminate the program

---
 examples/RtAudio/RtAudio.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/examples/RtAudio/RtAudio.cpp b/examples/RtAudio/RtAudio.cpp
index de7140e..a6492bb 100644
--- a/examples/RtAudio/RtAudio.cpp
+++ b/examples/RtAudio/RtAudio.cpp
@@ -8521,7 +8521,13 @@ static void *alsaCallbackHandler( void *ptr )
 
   while ( *isRunning == true ) {
     pthread_testcancel();
-    object->callbackEvent();
+    try {
+      object->callbackEvent();
+    }
+    catch ( RtAudioError &e ) {
+      // Stopping the device at the end of the stream may fail; there is nobody above to handle it.
+      e.printMessage();
+    }
   }
 
   pthread_exit( NULL );
-- 
2.43.0


From 81255bd6994af3c57debb4d2be1381060752d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:35 +0000
Subject: [PATCH 13/22] fix: LoadStereoSound: report a failed read instead of
 returning silence

---
 examples/Tools/LoadSound.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/examples/Tools/LoadSound.cpp b/examples/Tools/LoadSound.cpp
index 0f544aa..5a6c61f 100644
--- a/examples/Tools/LoadSound.cpp
+++ b/examples/Tools/LoadSound.cpp
@@ -19,7 +19,10 @@ StereoSound LoadStereoSound(const std::filesystem::path& file) {
 	}
 
 	Signal<float> interleaved(numFrames * numChannels);
-	soundFile.read(interleaved.data(), interleaved.size());
+	const auto numRead = soundFile.read(interleaved.data(), interleaved.size());
+	if (static_cast<size_t>(numRead) != interleaved.size()) {
+		throw std::runtime_error("Failed to read demo sound file.");
+	}
 
 	Signal<float> leftChannel = Decimate(interleaved, 2);
 	Signal<float> rightChannel = Decimate(AsView(interleaved).subsignal(1), 2);
-- 
2.43.0


From 36e247ea316f1642e03da49ea22ef11b928a6725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:35 +0000
Subject: [PATCH 14/22] fix: LoadStereoSound: a sound without frames has two
 empty channels

---
 examples/Tools/LoadSound.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/Tools/LoadSound.cpp b/examples/Tools/LoadSound.cpp
index 5a6c61f..9a6fc98 100644
--- a/examples/Tools/LoadSound.cpp
+++ b/examples/Tools/LoadSound.cpp
@@ -25,7 +25,7 @@ StereoSound LoadStereoSound(const std::filesystem::path& file) {
 	}
 
 	Signal<float> leftChannel = Decimate(interleaved, 2);
-	Signal<float> rightChannel = Decimate(AsView(interleaved).subsignal(1), 2);
+	Signal<float> rightChannel = Decimate(AsView(interleaved).subsignal(numFrames > 0 ? 1 : 0), 2);
 
 	return { std::move(leftChannel), std::move(rightChannel), sampleRate };
 }
-- 
2.43.0


From 53af454661309cfbe593245a9546f433f7313b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:35 +0000
Subject: [PATCH 15/22] fix: Interval equality must compare the end points

---
 include/dspbb/Utility/Interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Utility/Interval.hpp b/include/dspbb/Utility/Interval.hpp
index 8a6cfdf..1bc2422 100644
--- a/include/dspbb/Utility/Interval.hpp
+++ b/include/dspbb/Utility/Interval.hpp
@@ -37,7 +37,7 @@ Interval<T>& operator-=(Interval<T>& lhs, T rhs) {
 
 template <class T>
 bool operator==(const Interval<T>& lhs, const Interval<T>& rhs) {
-	return lhs.first == rhs.first && lhs.last && rhs.last;
+	return lhs.first == rhs.first && lhs.last == rhs.last;
 }
 
 template <class T>
-- 
2.43.0


From 2c5d266a6d2ddd7ce3137c13b06c1e0a2a5260b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:35 +0000
Subject: [PATCH 16/22] fix: central Convolution with an empty signal is empty

---
 include/dspbb/Math/Convolution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/Convolution.hpp b/include/dspbb/Math/Convolution.hpp
index 359ced7..582ecf8 100644
--- a/include/dspbb/Math/Convolution.hpp
+++ b/include/dspbb/Math/Convolution.hpp
@@ -74,7 +74,7 @@ template <class SignalR, class SignalT, class SignalU, std::enable_if_t<is_same_
 auto Convolution(SignalR&& out, const SignalT& u, const SignalU& v, impl::ConvCentral, bool clearOut = true) {
 	const size_t centralLength = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
 	assert(out.size() == centralLength && "Use ConvolutionLength to calculate output size properly.");
-	const size_t offset = std::min(u.size() - 1, v.size() - 1);
+	const size_t offset = centralLength > 0 ? std::min(u.size() - 1, v.size() - 1) : 0;
 	Convolution(out, u, v, offset, clearOut);
 }
 
@@ -100,7 +100,7 @@ auto Convolution(const SignalT& u, const SignalU& v, impl::ConvFull) {
 template <class SignalT, class SignalU, std::enable_if_t<is_same_domain_v<SignalT, SignalU>, int> = 0>
 auto Convolution(const SignalT& u, const SignalU& v, impl::ConvCentral) {
 	const size_t length = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
-	const size_t offset = std::min(u.size() - 1, v.size() - 1);
+	const size_t offset = length > 0 ? std::min(u.size() - 1, v.size() - 1) : 0;
 	return Convolution(u, v, offset, length);
 }
 
-- 
2.43.0


From 79a1cc77d992e9c81b4adea69ed0b7f3466c6b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:35 +0000
Subject: [PATCH 17/22] fix: central Resample of an empty signal is empty

---
 include/dspbb/Filtering/Resample.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/Resample.hpp b/include/dspbb/Filtering/Resample.hpp
index 06f3d72..e027c98 100644
--- a/include/dspbb/Filtering/Resample.hpp
+++ b/include/dspbb/Filtering/Resample.hpp
@@ -337,7 +337,7 @@ auto Resample(const SignalT& input,
 			  Rational<int64_t> sampleRates,
 			  impl::ConvCentral) {
 	const Rational<int64_t> startPointIn = {
-		int64_t(std::min(polyphase.size_original(), input.size() * polyphase.num_phases()) - 1),
+		std::max(int64_t(0), int64_t(std::min(polyphase.size_original(), input.size() * polyphase.num_phases())) - 1),
 		int64_t(polyphase.num_phases())
 	};
 	const size_t outputLength = floor(ResampleLength(input.size(), polyphase.size_original(), polyphase.num_phases(), sampleRates, CONV_CENTRAL));
-- 
2.43.0


From caa4a44e4440f26b5b10e7d022e2a1785bf90766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:35 +0000
Subject: [PATCH 18/22] fix: ExtractFilterBands: an empty spectrum has no bands

---
 include/dspbb/Filtering/MeasureFilter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/MeasureFilter.hpp b/include/dspbb/Filtering/MeasureFilter.hpp
index 50fb9b7..32a1f58 100644
--- a/include/dspbb/Filtering/MeasureFilter.hpp
+++ b/include/dspbb/Filtering/MeasureFilter.hpp
@@ -85,6 +85,9 @@ namespace impl {
 		const T upperThreshold = threshold + noise;
 		const T lowerThreshold = threshold - noise;
 		std::vector<Band> bands;
+		if (spectrum.empty()) {
+			return bands;
+		}
 		auto it = spectrum.begin();
 		size_t index = 0;
 		do {
-- 
2.43.0


From 1794015798339ba7fd75218d617d8b61bed236ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:35 +0000
Subject: [PATCH 19/22] Revert "fix: LoadStereoSound: a sound without frames
 has two empty channels"

This reverts commit 36e247ea316f1642e03da49ea22ef11b928a6725.
---
 examples/Tools/LoadSound.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/Tools/LoadSound.cpp b/examples/Tools/LoadSound.cpp
index 9a6fc98..5a6c61f 100644
--- a/examples/Tools/LoadSound.cpp
+++ b/examples/Tools/LoadSound.cpp
@@ -25,7 +25,7 @@ StereoSound LoadStereoSound(const std::filesystem::path& file) {
 	}
 
 	Signal<float> leftChannel = Decimate(interleaved, 2);
-	Signal<float> rightChannel = Decimate(AsView(interleaved).subsignal(numFrames > 0 ? 1 : 0), 2);
+	Signal<float> rightChannel = Decimate(AsView(interleaved).subsignal(1), 2);
 
 	return { std::move(leftChannel), std::move(rightChannel), sampleRate };
 }
-- 
2.43.0


From 3748ce1fc0dfff5216ec456877e66ddb2d2435ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:35 +0000
Subject: [PATCH 20/22] Revert "fix: LoadStereoSound: report a failed read
 instead of returning silence"

This reverts commit 81255bd6994af3c57debb4d2be1381060752d9a8.
---
 examples/Tools/LoadSound.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/examples/Tools/LoadSound.cpp b/examples/Tools/LoadSound.cpp
index 5a6c61f..0f544aa 100644
--- a/examples/Tools/LoadSound.cpp
+++ b/examples/Tools/LoadSound.cpp
@@ -19,10 +19,7 @@ StereoSound LoadStereoSound(const std::filesystem::path& file) {
 	}
 
 	Signal<float> interleaved(numFrames * numChannels);
-	const auto numRead = soundFile.read(interleaved.data(), interleaved.size());
-	if (static_cast<size_t>(numRead) != interleaved.size()) {
-		throw std::runtime_error("Failed to read demo sound file.");
-	}
+	soundFile.read(interleaved.data(), interleaved.size());
 
 	Signal<float> leftChannel = Decimate(interleaved, 2);
 	Signal<float> rightChannel = Decimate(AsView(interleaved).subsignal(1), 2);
-- 
2.43.0


From 4b86b2e83671442ffdce55605a25b47f738ed4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:35 +0000
Subject: [PATCH 21/22] Revert "fix: RtAudio ALSA: an error while the stream
 drains must not terminate the program"

This reverts commit 47d4487a3cf55d09b70cd4c765b67791430b19d4.
---
 examples/RtAudio/RtAudio.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/examples/RtAudio/RtAudio.cpp b/examples/RtAudio/RtAudio.cpp
index a6492bb..de7140e 100644
--- a/examples/RtAudio/RtAudio.cpp
+++ b/examples/RtAudio/RtAudio.cpp
@@ -8521,13 +8521,7 @@ static void *alsaCallbackHandler( void *ptr )
 
   while ( *isRunning == true ) {
     pthread_testcancel();
-    try {
-      object->callbackEvent();
-    }
-    catch ( RtAudioError &e ) {
-      // Stopping the device at the end of the stream may fail; there is nobody above to handle it.
-      e.printMessage();
-    }
+    object->callbackEvent();
   }
 
   pthread_exit( NULL );
-- 
2.43.0


From 5c1247e6af03cac8d127ea2c8fbe6f1a70227138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:35 +0000
Subject: [PATCH 22/22] Revert "fix: RtAudio ALSA: 24-bit samples are packed,
 ask the device for the packed format"

This reverts commit 569aa44ea18f88c7b3a718c286824b9763f379db.
---
 examples/RtAudio/RtAudio.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/examples/RtAudio/RtAudio.cpp b/examples/RtAudio/RtAudio.cpp
index de7140e..fa1252c 100644
--- a/examples/RtAudio/RtAudio.cpp
+++ b/examples/RtAudio/RtAudio.cpp
@@ -7545,7 +7545,7 @@ RtAudio::DeviceInfo RtApiAlsa :: getDeviceInfo( unsigned int device )
   format = SND_PCM_FORMAT_S16;
   if ( snd_pcm_hw_params_test_format( phandle, params, format ) == 0 )
     info.nativeFormats |= RTAUDIO_SINT16;
-  format = SND_PCM_FORMAT_S24_3LE;
+  format = SND_PCM_FORMAT_S24;
   if ( snd_pcm_hw_params_test_format( phandle, params, format ) == 0 )
     info.nativeFormats |= RTAUDIO_SINT24;
   format = SND_PCM_FORMAT_S32;
@@ -7753,7 +7753,7 @@ bool RtApiAlsa :: probeDeviceOpen( unsigned int device, StreamMode mode, unsigne
   else if ( format == RTAUDIO_SINT16 )
     deviceFormat = SND_PCM_FORMAT_S16;
   else if ( format == RTAUDIO_SINT24 )
-    deviceFormat = SND_PCM_FORMAT_S24_3LE;
+    deviceFormat = SND_PCM_FORMAT_S24;
   else if ( format == RTAUDIO_SINT32 )
     deviceFormat = SND_PCM_FORMAT_S32;
   else if ( format == RTAUDIO_FLOAT32 )
@@ -7785,7 +7785,7 @@ bool RtApiAlsa :: probeDeviceOpen( unsigned int device, StreamMode mode, unsigne
     goto setFormat;
   }
 
-  deviceFormat = SND_PCM_FORMAT_S24_3LE;
+  deviceFormat = SND_PCM_FORMAT_S24;
   if ( snd_pcm_hw_params_test_format(phandle, hw_params, deviceFormat ) == 0 ) {
     stream_.deviceFormat[mode] = RTAUDIO_SINT24;
     goto setFormat;
-- 
2.43.0

