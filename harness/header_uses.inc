// one small use of each public header, with nothing but what the header itself includes
{"edsp/algorithm.hpp", R"use(edsp::ceil(x, x + 8, y);edsp::index_of(x, x + 8, T(2));edsp::padder(x, x + 8, y, y + 16);)use"},
{"edsp/algorithm/amplifier.hpp", R"use(edsp::amplifier(x, x + 8, y, T(2));edsp::amplifier(x, x + 8, y, T(2), T(0), T(1));)use"},
{"edsp/algorithm/binary_search.hpp", R"use(edsp::binary_search(x, x + 8, T(2));)use"},
{"edsp/algorithm/ceil.hpp", R"use(edsp::ceil(x, x + 8, y);)use"},
{"edsp/algorithm/clipper.hpp", R"use(edsp::clipper(x, x + 8, y, T(0), T(1));)use"},
{"edsp/algorithm/concatenate.hpp", R"use(edsp::concatenate(x, x + 4, x, x + 4, y);)use"},
{"edsp/algorithm/derivative.hpp", R"use(edsp::derivative(x, x + 8, y);)use"},
{"edsp/algorithm/equal.hpp", R"use(edsp::equal(x, x + 8, y, y + 8); edsp::equal(x, x + 8, y, y + 8, [](T a, T b) { return a == b; });)use"},
{"edsp/algorithm/fix.hpp", R"use(edsp::fix(x, x + 8, y);)use"},
{"edsp/algorithm/floor.hpp", R"use(edsp::floor(x, x + 8, y);)use"},
{"edsp/algorithm/indexof.hpp", R"use(edsp::index_of(x, x + 8, T(2));)use"},
{"edsp/algorithm/linear_search.hpp", R"use(edsp::linear_search(x, x + 8, T(2));)use"},
{"edsp/algorithm/linspace.hpp", R"use(edsp::linspace(y, T(0), T(1), 8);)use"},
{"edsp/algorithm/logspace.hpp", R"use(edsp::logspace(y, T(0), T(1), 8);)use"},
{"edsp/algorithm/normalize.hpp", R"use(edsp::normalize(x, x + 8, y);edsp::normalize_rms(x, x + 8, y);)use"},
{"edsp/algorithm/padder.hpp", R"use(edsp::padder(x, x + 8, y, y + 16);)use"},
{"edsp/algorithm/rectify.hpp", R"use(edsp::rectify(x, x + 8, y);)use"},
{"edsp/algorithm/round.hpp", R"use(edsp::round(x, x + 8, y);)use"},
{"edsp/algorithm/silence.hpp", R"use(edsp::silence(x, x + 8, T(1));)use"},
{"edsp/auditory/audspace.hpp", R"use(edsp::auditory::audspace(y, T(20), T(2000), 8, edsp::auditory::auditory_scale::mel);)use"},
{"edsp/auditory/barkspace.hpp", R"use(edsp::auditory::barkspace(y, y + 8, T(20), T(2000));)use"},
{"edsp/auditory/centspace.hpp", R"use(edsp::auditory::centspace(y, y + 8, T(20), T(2000));)use"},
{"edsp/auditory/converter/bark2hertz.hpp", R"use(edsp::auditory::converter::bark2hertz(T(3));)use"},
{"edsp/auditory/converter/cent2hertz.hpp", R"use(edsp::auditory::converter::cent2hertz(T(3));)use"},
{"edsp/auditory/converter/erb2hertz.hpp", R"use(edsp::auditory::converter::erb2hertz(T(3));)use"},
{"edsp/auditory/converter/hertz2bark.hpp", R"use(edsp::auditory::converter::hertz2bark(T(300));)use"},
{"edsp/auditory/converter/hertz2cent.hpp", R"use(edsp::auditory::converter::hertz2cent(T(300));)use"},
{"edsp/auditory/converter/hertz2erb.hpp", R"use(edsp::auditory::converter::hertz2erb(T(300));)use"},
{"edsp/auditory/converter/hertz2mel.hpp", R"use(edsp::auditory::converter::hertz2mel(T(300));)use"},
{"edsp/auditory/converter/mel2hertz.hpp", R"use(edsp::auditory::converter::mel2hertz(T(3));)use"},
{"edsp/auditory/erbspace.hpp", R"use(edsp::auditory::erbspace(y, y + 8, T(20), T(2000));)use"},
{"edsp/auditory/melspace.hpp", R"use(edsp::auditory::melspace(y, y + 8, T(20), T(2000));)use"},
{"edsp/converter.hpp", R"use(edsp::db2mag(T(3));edsp::peak2rms(x, x + 8);)use"},
{"edsp/converter/complex2real.hpp", R"use(std::complex<T> z[8]; edsp::complex2real(z, z + 8, x, y);)use"},
{"edsp/converter/db2mag.hpp", R"use(edsp::db2mag(T(3));)use"},
{"edsp/converter/db2pow.hpp", R"use(edsp::db2pow(T(3));)use"},
{"edsp/converter/deg2rad.hpp", R"use(edsp::deg2rad(T(3));)use"},
{"edsp/converter/mag2db.hpp", R"use(edsp::mag2db(T(3));)use"},
{"edsp/converter/peak2peak.hpp", R"use(edsp::peak2peak(x, x + 8);)use"},
{"edsp/converter/peak2rms.hpp", R"use(edsp::peak2rms(x, x + 8);)use"},
{"edsp/converter/pow2db.hpp", R"use(edsp::pow2db(T(3));)use"},
{"edsp/converter/rad2deg.hpp", R"use(edsp::rad2deg(T(3));)use"},
{"edsp/converter/real2complex.hpp", R"use(std::complex<T> z[8]; edsp::real2complex(x, x + 8, z); edsp::real2complex(x, x + 8, y, z);)use"},
{"edsp/core/library_info.hpp", R"use(edsp::library_info::minor_version(); edsp::logger l(edsp::logger::off); l << edsp::library_info::fft_library();)use"},
{"edsp/core/logger.hpp", R"use(edsp::logger l("n", edsp::logger::off); l << 1 << "a" << 2.5 << edsp::red << edsp::endl << edsp::endc; l.str(); eInfo() << "x"; edsp::logger::set_default_level(edsp::logger::off); edsp::logger::set_pattern("");)use"},
{"edsp/core/system.hpp", R"use(edsp::system_env::get_env("A"); edsp::system_env::set_env("A", "b"); edsp::system_env::exist("A"); edsp::logger l(edsp::logger::off); l << edsp::system_info::os() << edsp::system_info::processor() << edsp::system_info::compiler();)use"},
{"edsp/experimental/envelope/adsr.hpp", R"use(edsp::envelope::adsr<T> e; e.key_on(); e(T(1)); e.apply(x, x + 8, y); e.key_off();)use"},
{"edsp/experimental/envelope/ar.hpp", R"use(edsp::envelope::ar<T> e(8000, 1, 1); e(T(1)); e.apply(x, x + 8, y); e.reset();)use"},
{"edsp/experimental/quantizer/mu_law_compressor.hpp", R"use(edsp::quantizer::mu_law_compression(x, x + 8, y, T(1), 255); edsp::quantizer::inverse_mu_law_compression(x, x + 8, y, T(1), 255);)use"},
{"edsp/feature/perceptual/loudness.hpp", R"use(edsp::feature::loudness(x, x + 8);)use"},
{"edsp/feature/spectral/spectral_centroid.hpp", R"use(edsp::feature::spectral::spectral_centroid(x, x + 8, y);)use"},
{"edsp/feature/spectral/spectral_crest.hpp", R"use(edsp::feature::spectral::spectral_crest(x, x + 8);)use"},
{"edsp/feature/spectral/spectral_decrease.hpp", R"use(edsp::feature::spectral::spectral_decrease(x, x + 8);)use"},
{"edsp/feature/spectral/spectral_entropy.hpp", R"use(edsp::feature::spectral::spectral_entropy(x, x + 8);)use"},
{"edsp/feature/spectral/spectral_flatness.hpp", R"use(edsp::feature::spectral::spectral_flatness(x, x + 8);)use"},
{"edsp/feature/spectral/spectral_flux.hpp", R"use(edsp::feature::spectral::spectral_flux(x, x + 8, y);)use"},
{"edsp/feature/spectral/spectral_irregularity.hpp", R"use(edsp::feature::spectral::spectral_irregularity(x, x + 8);)use"},
{"edsp/feature/spectral/spectral_kurtosis.hpp", R"use(edsp::feature::spectral::spectral_kurtosis(x, x + 8);)use"},
{"edsp/feature/spectral/spectral_rolloff.hpp", R"use(edsp::feature::spectral::spectral_rolloff(x, x + 8);)use"},
{"edsp/feature/spectral/spectral_skewness.hpp", R"use(edsp::feature::spectral::spectral_skewness(x, x + 8);)use"},
{"edsp/feature/spectral/spectral_slope.hpp", R"use(edsp::feature::spectral::spectral_slope(x, x + 8, y);)use"},
{"edsp/feature/spectral/spectral_spread.hpp", R"use(edsp::feature::spectral::spectral_spread(x, x + 8, y);)use"},
{"edsp/feature/spectral/spectral_variation.hpp", R"use(edsp::feature::spectral::spectral_variation(x, x + 8, y);)use"},
{"edsp/feature/statistics/centroid.hpp", R"use(edsp::feature::statistics::centroid(x, x + 8); edsp::feature::statistics::weighted_centroid(x, x + 8, y);)use"},
{"edsp/feature/statistics/crest.hpp", R"use(edsp::feature::statistics::crest(x, x + 8);)use"},
{"edsp/feature/statistics/decrease.hpp", R"use(edsp::feature::statistics::decrease(x, x + 8);)use"},
{"edsp/feature/statistics/entropy.hpp", R"use(edsp::feature::statistics::entropy(x, x + 8);)use"},
{"edsp/feature/statistics/flatness.hpp", R"use(edsp::feature::statistics::flatness(x, x + 8);)use"},
{"edsp/feature/statistics/flux.hpp", R"use(edsp::feature::statistics::flux<edsp::distances::euclidean>(x, x + 8, y);)use"},
{"edsp/feature/statistics/rolloff.hpp", R"use(edsp::feature::statistics::rolloff(x, x + 8, T(0.5));)use"},
{"edsp/feature/statistics/slope.hpp", R"use(edsp::feature::statistics::slope(x, x + 8, y);)use"},
{"edsp/feature/statistics/spread.hpp", R"use(edsp::feature::statistics::spread(x, x + 8); edsp::feature::statistics::weighted_spread(x, x + 8, y);)use"},
{"edsp/feature/statistics/variation.hpp", R"use(edsp::feature::statistics::variation(x, x + 8, y);)use"},
{"edsp/feature/temporal/amdf.hpp", R"use(edsp::feature::temporal::amdf(x, x + 8, y);)use"},
{"edsp/feature/temporal/asdf.hpp", R"use(edsp::feature::temporal::asdf(x, x + 8, y);)use"},
{"edsp/feature/temporal/azcr.hpp", R"use(edsp::feature::temporal::azcr(x, x + 8);)use"},
{"edsp/feature/temporal/duration.hpp", R"use(edsp::feature::temporal::duration(x, x + 8, T(8)); edsp::feature::temporal::effective_duration(x, x + 8, T(8), T(1));)use"},
{"edsp/feature/temporal/energy.hpp", R"use(edsp::feature::temporal::energy(x, x + 8);)use"},
{"edsp/feature/temporal/leq.hpp", R"use(edsp::feature::temporal::leq(x, x + 8); edsp::feature::temporal::continuous_leq<T> l(3); l.extract(x, x + 8);)use"},
{"edsp/feature/temporal/power.hpp", R"use(edsp::feature::temporal::power(x, x + 8);)use"},
{"edsp/feature/temporal/rms.hpp", R"use(edsp::feature::temporal::rms(x, x + 8);)use"},
{"edsp/feature/temporal/rssq.hpp", R"use(edsp::feature::temporal::rssq(x, x + 8);)use"},
{"edsp/feature/temporal/snr.hpp", R"use(edsp::feature::temporal::snr(x, x + 8, y);)use"},
{"edsp/filter.hpp", R"use(edsp::filter::designer<T, edsp::filter::designer_type::RBJ, 2> d; d.template design<edsp::filter::filter_type::LowPass>(T(100), T(8000), T(1));)use"},
{"edsp/filter/biquad.hpp", R"use(edsp::filter::biquad<T> b(1, 0, 0, 1, 0, 0); b.tick(T(1)); b.filter(x, x + 8, y); b.reset(); b.stability(); edsp::filter::biquad<T> c(std::complex<T>(0.5), std::complex<T>(0.5));)use"},
{"edsp/filter/biquad_cascade.hpp", R"use(edsp::filter::biquad_cascade<T, 4> b; b.emplace_back(1, 0, 0, 1, 0, 0); b.tick(T(1)); b.filter(x, x + 8, y); b.reset(); b.clear();)use"},
{"edsp/filter/moving_average_filter.hpp", R"use(edsp::filter::moving_average<T> m(3); m(T(1)); m.filter(x, x + 8, y); m.resize(4); m.reset(); m.size();)use"},
{"edsp/filter/moving_median_filter.hpp", R"use(edsp::filter::moving_median<T> m(3); m(T(1)); m.filter(x, x + 8, y); m.resize(4); m.reset(); m.size();)use"},
{"edsp/filter/moving_rms_filter.hpp", R"use(edsp::filter::moving_rms<T> m(3); m(T(1)); m.filter(x, x + 8, y); m.resize(4); m.reset(); m.size();)use"},
{"edsp/io.hpp", R"use(edsp::io::decoder<T> dd; dd.open("a"); dd.read(y, y + 8); dd.seek(0); dd.close(); edsp::io::decoder<std::int16_t> ss; std::int16_t bb[4]; ss.read(bb, bb + 4);edsp::io::encoder<T> d(8000, 1); d.open("a"); d.write(y, y + 8); d.close(); edsp::io::encoder<std::int16_t> s(8000, 1); std::int16_t b[4] = {}; s.write(b, b + 4);)use"},
{"edsp/io/decoder.hpp", R"use(edsp::io::decoder<T> d; d.open("a"); d.read(y, y + 8); d.seek(0); d.close(); edsp::io::decoder<std::int16_t> s; std::int16_t b[4]; s.read(b, b + 4);)use"},
{"edsp/io/encoder.hpp", R"use(edsp::io::encoder<T> d(8000, 1); d.open("a"); d.write(y, y + 8); d.close(); edsp::io::encoder<std::int16_t> s(8000, 1); std::int16_t b[4] = {}; s.write(b, b + 4);)use"},
{"edsp/io/metadata.hpp", R"use(edsp::io::metadata m("a"); m.title(); m.track();)use"},
{"edsp/io/resampler.hpp", R"use(edsp::io::resampler<float> r(1, edsp::io::resample_quality::linear, 2); float a[8] = {}, b[32]; r.process(a, a + 8, b); r.reset();)use"},
{"edsp/math.hpp", R"use(edsp::is_prime(7); edsp::next_power_two(5); edsp::is_denormal(T(1)); edsp::fract(T(1.5)); edsp::rand(T(0), T(1)); edsp::distance<edsp::distances::euclidean>(T(1), T(2));T k = edsp::constants<T>::pi; (void)k;)use"},
{"edsp/math/complex.hpp", R"use(std::complex<T> z(1, 2); edsp::magnitude(z); edsp::phase(z); edsp::is_nan(z);)use"},
{"edsp/math/constant.hpp", R"use(T k = edsp::constants<T>::pi; (void)k;)use"},
{"edsp/math/numeric.hpp", R"use(edsp::is_prime(7); edsp::next_power_two(5); edsp::is_denormal(T(1)); edsp::fract(T(1.5)); edsp::rand(T(0), T(1)); edsp::distance<edsp::distances::euclidean>(T(1), T(2));)use"},
{"edsp/meta/advance.hpp", R"use(edsp::meta::advance(x, 3);)use"},
{"edsp/meta/cast.hpp", R"use(edsp::meta::sc<int>(T(3));)use"},
{"edsp/meta/contains.hpp", R"use(edsp::meta::contains(x, x + 8, T(3));)use"},
{"edsp/meta/data.hpp", R"use(edsp::meta::data(x);)use"},
{"edsp/meta/empty.hpp", R"use(edsp::meta::empty(x);)use"},
{"edsp/meta/ensure.hpp", R"use(edsp::meta::ensure(true); edsp::meta::ensure(true, "a");)use"},
{"edsp/meta/equal.hpp", R"use(edsp::meta::equal(T(1), T(2)); edsp::meta::equal(1, 2);)use"},
{"edsp/meta/expects.hpp", R"use(edsp::meta::expects(true); edsp::meta::expects(true, "a");)use"},
{"edsp/meta/is_char.hpp", R"use(bool b = edsp::meta::is_char<char>::value; (void)b;)use"},
{"edsp/meta/is_iterator.hpp", R"use(bool b = edsp::meta::is_iterator<T*>::value; (void)b;)use"},
{"edsp/meta/is_null.hpp", R"use(edsp::meta::is_null(x); T* p = x; edsp::meta::is_null(p);)use"},
{"edsp/meta/is_signed.hpp", R"use(bool b = edsp::meta::is_signed<int>::value; (void)b;)use"},
{"edsp/meta/is_unsigned.hpp", R"use(bool b = edsp::meta::is_unsigned<int>::value; (void)b;)use"},
{"edsp/meta/iterator.hpp", R"use(edsp::meta::value_type_t<T*> v = 1; (void)v;)use"},
{"edsp/meta/size.hpp", R"use(edsp::meta::size(x);)use"},
{"edsp/meta/unused.hpp", R"use(edsp::meta::unused(x); edsp::meta::unused(x, "a");)use"},
{"edsp/oscillator.hpp", R"use(auto o = edsp::oscillators::make_oscillator<T, edsp::oscillators::OscillatorType::Square>(T(1), T(8000), T(100), T(0.5)); o();)use"},
{"edsp/oscillators/sawtooth.hpp", R"use(edsp::oscillators::sawtooth_oscillator<T> o(1, 8000, 100, 0.5); o(); o.set_width(1);)use"},
{"edsp/oscillators/sinusoidal.hpp", R"use(edsp::oscillators::sin_oscillator<T> o(1, 8000, 100, 0); o(); o.set_frequency(3);)use"},
{"edsp/oscillators/square.hpp", R"use(edsp::oscillators::square_oscillator<T> o(1, 8000, 100, 0.5); o(); o.set_duty(1);)use"},
{"edsp/oscillators/triangular.hpp", R"use(edsp::oscillators::triangular_oscillator<T> o(1, 8000, 100); o();)use"},
{"edsp/random.hpp", R"use(edsp::random::pink_noise_generator<T> g(-1, 1); g();)use"},
{"edsp/random/binary_generator.hpp", R"use(edsp::random::binary_generator<bool> g(0.5); g();)use"},
{"edsp/random/constant_generator.hpp", R"use(edsp::random::constant_generator<T> g(2); g();)use"},
{"edsp/random/noise/brown_noise_generator.hpp", R"use(edsp::random::brown_noise_generator<T> g(-1, 1); g();)use"},
{"edsp/random/noise/perlin_noise_generator.hpp", R"use(edsp::random::perlin_noise_generator<T> g; g();)use"},
{"edsp/random/noise/pink_noise_generator.hpp", R"use(edsp::random::pink_noise_generator<T> g(-1, 1); g();)use"},
{"edsp/random/noise/white_noise_generator.hpp", R"use(edsp::random::white_noise_generator<T> g(-1, 1); g();)use"},
{"edsp/random/random_generator.hpp", R"use(edsp::random::random_generator<edsp::random::DistributionType::Uniform, T> g(T(0), T(1)); g();)use"},
{"edsp/spectral/cepstrum.hpp", R"use(edsp::cepstrum(x, x + 8, y);)use"},
{"edsp/spectral/convolution.hpp", R"use(edsp::conv(x, x + 8, x, y);)use"},
{"edsp/spectral/correlation.hpp", R"use(edsp::xcorr(x, x + 8, y);edsp::xcorr(x, x + 8, x, y);)use"},
{"edsp/spectral/dct.hpp", R"use(edsp::dct(x, x + 8, y);edsp::idct(x, x + 8, y);)use"},
{"edsp/spectral/dft.hpp", R"use(std::complex<T> z[16], w[16]; edsp::cdft(z, z + 8, w); edsp::cidft(z, z + 8, w); edsp::dft(x, x + 8, z); edsp::idft(z, z + 5, y);)use"},
{"edsp/spectral/fft_engine.hpp", R"use(std::complex<T> z[16], w[16]; edsp::fft_engine<T> f(8); f.dft(z, w); f.idft(w, z); f.idft_scale(z); edsp::make_fft_size(8);)use"},
{"edsp/spectral/hartley.hpp", R"use(edsp::hartley(x, x + 8, y);)use"},
{"edsp/spectral/hilbert.hpp", R"use(std::complex<T> z[8]; edsp::hilbert(x, x + 8, z);)use"},
{"edsp/spectral/spectrum.hpp", R"use(edsp::spectrum(x, x + 8, y);)use"},
{"edsp/statistics.hpp", R"use(edsp::statistics::median(x, x + 8);edsp::statistics::norm(x, x + 8);)use"},
{"edsp/statistics/generalized_mean.hpp", R"use(edsp::statistics::generalized_mean(x, x + 8, 2);)use"},
{"edsp/statistics/geometric_mean.hpp", R"use(edsp::statistics::geometric_mean(x, x + 8);)use"},
{"edsp/statistics/harmonic_mean.hpp", R"use(edsp::statistics::harmonic_mean(x, x + 8);)use"},
{"edsp/statistics/kurtosis.hpp", R"use(edsp::statistics::kurtosis(x, x + 8);)use"},
{"edsp/statistics/max.hpp", R"use(edsp::statistics::max(x, x + 8);)use"},
{"edsp/statistics/mean.hpp", R"use(edsp::statistics::mean(x, x + 8);)use"},
{"edsp/statistics/median.hpp", R"use(edsp::statistics::median(x, x + 8);)use"},
{"edsp/statistics/min.hpp", R"use(edsp::statistics::min(x, x + 8);)use"},
{"edsp/statistics/moment.hpp", R"use(edsp::statistics::moment<3>(x, x + 8);)use"},
{"edsp/statistics/norm.hpp", R"use(edsp::statistics::norm(x, x + 8);)use"},
{"edsp/statistics/peak.hpp", R"use(edsp::statistics::peak(x, x + 8);)use"},
{"edsp/statistics/skewness.hpp", R"use(edsp::statistics::skewness(x, x + 8);)use"},
{"edsp/statistics/variance.hpp", R"use(edsp::statistics::variance(x, x + 8);)use"},
{"edsp/string/join.hpp", R"use(std::string d; edsp::string::join(x, x + 8, d, ',');)use"},
{"edsp/string/split.hpp", R"use(std::string d, o[8]; edsp::string::split(d, o, ',');)use"},
{"edsp/string/to_lower.hpp", R"use(char a[3] = "AB"; edsp::string::tolower(a, a + 2, a);)use"},
{"edsp/string/to_upper.hpp", R"use(char a[3] = "ab"; edsp::string::toupper(a, a + 2, a);)use"},
{"edsp/string/trim.hpp", R"use(std::string s; edsp::string::trim(s); edsp::string::ltrim(s); edsp::string::rtrim(s);)use"},
{"edsp/types/any.hpp", R"use(edsp::any a = 3; a = 2.5; a.has_value();)use"},
{"edsp/types/expected.hpp", R"use(edsp::expected<int, bool> e = 3; e.value(); e = edsp::make_unexpected(true);)use"},
{"edsp/types/fixed_ring_buffer.hpp", R"use(edsp::fixed_ring_buffer<T, 3> b; b.push_back(1); b.at(0); b.pop_front(); b.clear(); for (auto v : b) (void)v;)use"},
{"edsp/types/optional.hpp", R"use(edsp::optional<int> o = 3; o.value(); o.reset();)use"},
{"edsp/types/ring_buffer.hpp", R"use(edsp::ring_buffer<T> b(3); b.push_back(1); b.at(0); b.pop_front(); b.clear(); for (auto v : b) (void)v;)use"},
{"edsp/types/ring_span.hpp", R"use(edsp::ring_span<T> b(x, x + 8); b.push_back(1); b.pop_front(); for (auto v : b) (void)v;)use"},
{"edsp/types/span.hpp", R"use(edsp::span<T> s(x, 8); s[0]; for (auto v : s) (void)v;)use"},
{"edsp/types/string_view.hpp", R"use(edsp::string_view s("abc"); s.size();)use"},
{"edsp/types/timestamp.hpp", R"use(edsp::timestamp t = 0; (void)t;)use"},
{"edsp/types/variant.hpp", R"use(edsp::variant<int, T> v = 3; v = T(2); v.index();)use"},
{"edsp/windowing.hpp", R"use(edsp::windowing::hamming(y, y + 8);edsp::windowing::make_window<edsp::windowing::WindowType::Hanning>(y, y + 8);)use"},
{"edsp/windowing/bartlett.hpp", R"use(edsp::windowing::bartlett(y, y + 8);)use"},
{"edsp/windowing/blackman.hpp", R"use(edsp::windowing::blackman(y, y + 8);)use"},
{"edsp/windowing/blackman_harris.hpp", R"use(edsp::windowing::blackman_harris(y, y + 8);)use"},
{"edsp/windowing/blackman_nuttall.hpp", R"use(edsp::windowing::blackman_nutall(y, y + 8);)use"},
{"edsp/windowing/boxcar.hpp", R"use(edsp::windowing::boxcar(y, y + 8);)use"},
{"edsp/windowing/flattop.hpp", R"use(edsp::windowing::flattop(y, y + 8);)use"},
{"edsp/windowing/hamming.hpp", R"use(edsp::windowing::hamming(y, y + 8);)use"},
{"edsp/windowing/hanning.hpp", R"use(edsp::windowing::hanning(y, y + 8);)use"},
{"edsp/windowing/rectangular.hpp", R"use(edsp::windowing::rectangular(y, y + 8);)use"},
{"edsp/windowing/triangular.hpp", R"use(edsp::windowing::triangular(y, y + 8);)use"},
{"edsp/windowing/welch.hpp", R"use(edsp::windowing::welch(y, y + 8);)use"},
