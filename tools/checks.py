import os, re
# How each property is decided: harness units (compiled against /repo at check time) and notes.
FFT = ['-lfftw3', '-lfftw3f', '-lfftw3l']
REPO_DIR = os.environ.get('EDSP_REPO', '/repo')
def listed(part):
    """the sources a binding is built from, as its build file lists them"""
    text = open(os.path.join(REPO_DIR, part, 'CMakeLists.txt')).read() if os.path.exists(os.path.join(REPO_DIR, part, 'CMakeLists.txt')) else ''
    return [os.path.join(part, f) for f in dict.fromkeys(re.findall(r'\bsrc/[\w./-]+\.(?:cpp|cc|cxx|c)\b', text))]
C_SRC, PY_SRC = listed('bindings/c'), listed('bindings/python')
LIBS = {'spectral.cpp': FFT, 'io_roundtrip.cpp': ['-lsndfile'], 'io_resample.cpp': ['-lsamplerate']}
CHECKS = {
 'C01': {'units': [{'src': 'rings.cpp', 'flags': ['-DDYNAMIC']}]},
 'C02': {'units': [{'src': 'rings.cpp'}]},
 'C03': {'units': [{'src': 'movers.cpp', 'flags': ['-DC03']}]},
 'C04': {'units': [{'src': 'movers.cpp', 'flags': ['-DC04']}]},
 'C05': {'units': [{'src': 'biquads.cpp', 'flags': ['-DC05']}]},
 'C06': {'units': [{'src': 'biquads.cpp', 'flags': ['-DC06']}]},
 'C07': {'units': [{'src': 'biquads.cpp', 'flags': ['-DC07']}]},
 'C08': {'units': [{'src': 'designers.cpp', 'flags': ['-DC08']}]},
 'C09': {'units': [{'src': 'designers.cpp', 'flags': ['-DC09']}]},
 'C10': {'units': [{'src': 'designers.cpp', 'flags': ['-DC10']}]},
 'C11': {'units': [{'src': 'oscillators.cpp'}]},
 'C12': {'units': [{'src': 'spectral.cpp', 'flags': ['-DC12'], 'libs': FFT}]},
 'C13': {'units': [{'src': 'spectral.cpp', 'flags': ['-DC13'], 'libs': FFT}]},
 'C14': {'units': [{'src': 'spectral.cpp', 'flags': ['-DC14'], 'libs': FFT}]},
 'C15': {'units': [{'src': 'spectral.cpp', 'flags': ['-DC15'], 'libs': FFT}]},
 'C16': {'units': [{'src': 'spectral.cpp', 'flags': ['-DC16'], 'libs': FFT}]},
 'C17': {'units': [{'src': 'windows.cpp'}]},
 'C18': {'units': [{'src': 'algorithms.cpp', 'flags': ['-DC18']}]},
 'C19': {'units': [{'src': 'algorithms.cpp', 'flags': ['-DC19']}]},
 'C20': {'units': [{'src': 'algorithms.cpp', 'flags': ['-DC20']}]},
 'C21': {'units': [{'src': 'features.cpp', 'flags': ['-DC21']}]},
 'C22': {'units': [{'src': 'features.cpp', 'flags': ['-DC22']}]},
 'C23': {'units': [{'src': 'features.cpp', 'flags': ['-DC23']}]},
 'C24': {'units': [{'src': 'features.cpp', 'flags': ['-DC24']}]},
 'C31': {'units': [{'src': 'features.cpp', 'flags': ['-DC31']}]},
 'C25': {'units': [{'src': 'strings.cpp'}]},
 'C26': {'units': [{'src': 'env.cpp', 'san': False, 'libs': ['-ldl']}]},
 'C27': {'units': [{'src': 'io_life.cpp'}]},
 'C28': {'units': [{'src': 'io_roundtrip.cpp', 'libs': ['-lsndfile']}]},
 'C29': {'units': [{'src': 'io_resample.cpp', 'libs': ['-lsamplerate']}, {'src': 'io_resample_life.cpp'}]},
 'C30': {'units': [{'src': 'experimental.cpp', 'flags': ['-DC30']}]},
 'C34': {'units': [{'src': 'experimental.cpp', 'flags': ['-DC34']}]},
 'C35': {'units': [{'src': 'experimental.cpp', 'flags': ['-DC35']}]},
 'C36': {'units': [{'src': 'experimental.cpp', 'flags': ['-DC36']}]},
 'C32': {'flags': ['-O1', '-std=c++17'], 'units': [{'src': 'c_interface.cpp', 'libs': FFT, 'repo_src': C_SRC},
          {'src': 'library_info.cpp', 'flags': ['-UUSE_LIBFFTW', '-UUSE_LIBSNDFILE', '-UUSE_LIBSAMPLERATE', '-DUSE_LIBPFFFT', '-DUSE_LIBAUDIOFILE', '-DUSE_LIBRESAMPLE', '-DLIBNAME=pffft', '-DFFT=pffft', '-DCODEC=audiofile', '-DRESAMPLE=resample']},
          {'src': 'library_info.cpp', 'flags': ['-UUSE_LIBFFTW', '-UUSE_LIBSNDFILE', '-UUSE_LIBSAMPLERATE', '-DLIBNAME=nothing', '-DFFT=unknown', '-DCODEC=unknown', '-DRESAMPLE=unknown']}]},
 'C39': {'flags': ['-O1', '-std=c++14', '-w'], 'units': [{'src': 'python.cpp', 'flags': ['-DMODULE_NAME=pedsp', '-I' + REPO_DIR + '/bindings/python/include', '-I/usr/include/python3.12'], 'libs': FFT + ['-lsndfile', '-lsamplerate', '-ltag', '-lboost_numpy312', '-lboost_python312', '-lpython3.12'], 'repo_src': C_SRC + PY_SRC, 'own_names': ['execute']}]},
 'C40': {'units': [{'src': 'types.cpp'}]},
 'C41': {'units': [{'src': 'headers.cpp', 'san': False}]},
 'C42': {'budget': {'quick': 420, 'thorough': 820}, 'units': [{'src': src, 'san': False, 'flags': ['-UNDEBUG', '-D' + d] if d else ['-UNDEBUG'], 'libs': LIBS.get(src, [])} for src, d in (
          ('rings.cpp', 'DYNAMIC'), ('rings.cpp', ''), ('movers.cpp', 'C03'), ('movers.cpp', 'C04'), ('biquads.cpp', 'C05'), ('biquads.cpp', 'C06'), ('biquads.cpp', 'C07'), ('designers.cpp', 'C08'), ('designers.cpp', 'C09'), ('designers.cpp', 'C10'),
          ('oscillators.cpp', ''), ('spectral.cpp', 'C12'), ('spectral.cpp', 'C13'), ('spectral.cpp', 'C14'), ('spectral.cpp', 'C15'), ('spectral.cpp', 'C16'), ('windows.cpp', ''), ('algorithms.cpp', 'C18'), ('algorithms.cpp', 'C19'), ('algorithms.cpp', 'C20'),
          ('features.cpp', 'C21'), ('features.cpp', 'C22'), ('features.cpp', 'C23'), ('features.cpp', 'C24'), ('features.cpp', 'C31'), ('experimental.cpp', 'C30'), ('experimental.cpp', 'C34'), ('experimental.cpp', 'C35'), ('experimental.cpp', 'C36'), ('io_roundtrip.cpp', ''), ('io_life.cpp', ''), ('io_resample.cpp', ''), ('strings.cpp', ''), ('random.cpp', ''))]},
 'C43': {'units': [{'src': 'meta.cpp'}]},
 'C44': {'units': [{'src': 'threads.cpp', 'san': False, 'libs': FFT + ['-ldl']}]},
 'C33': {'units': [{'src': 'random.cpp'}]},
 'C37': {'units': [{'src': 'metadata.cpp', 'libs': ['-ltag']}]},
 'C38': {'units': [{'src': 'logger.cpp'}]},
}
NOT_APPLICABLE = {}
