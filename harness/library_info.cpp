// C32: the reported back ends under other configurations than the one built here
#include <stdexcept>
#include <cmath>
#include <edsp/core/library_info.hpp>
#include "inputs.hpp"
using mc::Ctx; using namespace edsp::core;
SCENARIO(LIBNAME, 1) {
    c.nontrivial(1); typedef edsp::library_info L; c.at("library information");
    c.check(L::fft_library() == fft_lib::FFT, "fft-library", "the FFT library of this configuration is reported as %d", (int)L::fft_library()); c.check(L::codec_library() == codec_lib::CODEC, "codec-library", "the codec library of this configuration is reported as %d", (int)L::codec_library()); c.check(L::resample_library() == resample_lib::RESAMPLE, "resample-library", "the resampling library of this configuration is reported as %d", (int)L::resample_library());
}
