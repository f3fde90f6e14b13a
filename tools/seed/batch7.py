
PYSTUB = """import sys, types

class Arr(list):
    # enough of an array for the package: element-wise *=
    def __imul__(self, k):
        for i in range(len(self)):
            self[i] *= k
        return self

np = types.ModuleType("numpy")
np.ndarray = Arr
np.asarray = lambda x, *a, **k: x
sys.modules.setdefault("numpy", np)
m = types.ModuleType("neo._neo", "stand-in")
m.__version__ = "dev"
m.convolution_mode = types.SimpleNamespace(full="full", valid="valid", same="same")
m.norm = types.SimpleNamespace(backward="backward", ortho="ortho", forward="forward")
log = []

def record(name, result=None):
    def f(*args):
        log.append((name,) + args)
        return result(*args) if result else None
    return f

for n in ("a_weighting", "fast_log2", "fast_log10", "amplitude_to_db", "amplitude_to_db_estimate", "direct_convolve", "fft_convolve", "fft", "ifft"):
    setattr(m, n, record(n))
m.rfftfreq = record("rfftfreq", lambda n, d: Arr(i / (n * d) for i in range(n)))
sys.modules["neo._neo"] = m
sys.path.insert(0, sys.argv[1] + "/extra/python/src")
import neo
import neo.fft
"""
DC = "extra/plugin/src/dsp/DenseConvolution.cpp"
SEEDS = [
dict(id="c28-cached-frequencies", prop="C28",
  edits=[("extra/python/src/neo/fft/__init__.py", "def rfftfreq(n: int, d=1.0) -> np.ndarray:", "_FREQUENCIES = {}\n\n\ndef rfftfreq(n: int, d=1.0) -> np.ndarray:"),
         ("extra/python/src/neo/fft/__init__.py", "    return _neo.rfftfreq(n, d)\n", "    if (n, d) not in _FREQUENCIES:\n        _FREQUENCIES[n, d] = _neo.rfftfreq(n, d)\n    return _FREQUENCIES[n, d]\n")],
  needs="the caller changes a returned table in place and asks for the same table again",
  breaks="the frequency table of a later call is the one the caller has changed",
  demo_py=PYSTUB + """
f = neo.fft.rfftfreq(8, 0.5)
f *= 1000
g = neo.fft.rfftfreq(8, 0.5)
want = [i / 4.0 for i in range(8)]
if list(g) != want:
    print("second table:", g)
    sys.exit(1)
print("ok")
"""),
dict(id="c28-crop-before-length", prop="C28",
  edits=[("extra/python/src/neo/fft/__init__.py", "    return _neo.ifft(x, n, NORM_MODE[norm])\n", "    if n is not None and n < len(x):\n        # the low half and the high half of the spectrum\n        x = np.concatenate((x[: n // 2], x[len(x) - (n - n // 2):]))\n    return _neo.ifft(x, n, NORM_MODE[norm])\n")],
  needs="ifft with an n smaller than the length of the array",
  breaks="ifft crops its input in the middle instead of at the end",
  demo_py=PYSTUB + """
np.concatenate = lambda p: Arr(sum((list(v) for v in p), []))
neo.fft.ifft(Arr([1, 2, 3, 4, 5, 6, 7, 8]), 4)
name, x, n, norm = log[-1]
size = len(x) if n is None else n
seen = (list(x) + [0] * size)[:size]
if name != "ifft" or seen != [1, 2, 3, 4] or norm != "backward":
    print("transformed:", log[-1])
    sys.exit(1)
print("ok")
"""),
dict(id="c27-resampled-in-place", prop="C27", stubs=("juce", "extra/plugin/src"),
  edits=[(DC, "        auto resampled = resample(*_impulse, _spec->sampleRate);\n", "        // resample once, prepare() is called often\n        *_impulse            = resample(*_impulse, _spec->sampleRate);\n        auto const& resampled = *_impulse;\n")],
  needs="a file at one sample rate, prepared at a second (lower) and then at a third rate",
  breaks="the response loses everything above the lowest rate the engine was ever prepared with",
  inc=["dsp/DenseConvolution.hpp", "dsp/DenseConvolution.cpp", "dsp/AudioBuffer.cpp"], pre="""
static auto wav(std::vector<float> const& h, double rate) -> std::unique_ptr<juce::InputStream>
{
    auto s = std::make_unique<juce::InputStream>();
    s->samples.setSize(1, int(h.size()));
    for (std::size_t i = 0; i < h.size(); ++i) { s->samples.setSample(0, int(i), h[i]); }
    s->sampleRate = rate;
    return s;
}
static auto render(neo::DenseConvolution& e, int n) -> std::vector<float>
{
    std::vector<float> y;
    for (int i = 0; i < n; i += 4) {
        juce::AudioBuffer<float> b{1, 4};
        for (int k = 0; k < 4; ++k) { b.setSample(0, k, i + k == 0 ? 1.0F : 0.0F); }
        auto blk = juce::dsp::AudioBlock<float>{b};
        e.process(juce::dsp::ProcessContextReplacing<float>{blk});
        for (int k = 0; k < 4; ++k) { y.push_back(b.getSample(0, k)); }
    }
    return y;
}
""",
  demo="""
    std::vector<float> h = {1.0F, -0.5F, 0.75F, 0.25F, -1.0F, 0.5F, 0.125F, -0.25F};
    auto a = neo::DenseConvolution{4}, b = neo::DenseConvolution{4};
    a.loadImpulseResponse(wav(h, 96000.0));
    a.prepare({24000.0, 4, 1});
    a.prepare({96000.0, 4, 1});
    b.loadImpulseResponse(wav(h, 96000.0));
    b.prepare({96000.0, 4, 1});
    auto const x = render(a, 24), y = render(b, 24);
    for (std::size_t i = 0; i < x.size(); ++i) { CK(std::abs(x[i] - y[i]) < 1e-5F, "sample %zu: %g, expected %g", i, double(x[i]), double(y[i])); }
"""),
]
