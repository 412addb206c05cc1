"""Stand-in of the plotting library: keeps what is filled into histograms and which ones are written,
and says it in the file named by ROOT_LOG. Everything else is accepted and ignored."""
import atexit, json, os

_log = []


class _Any(object):
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return _Any()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()


class _Histo(_Any):
    dim = 1

    def __init__(self, name, title, *axes):
        self._h = dict(dim=self.dim, name=name, title=title, axes=[float(x) for x in axes], fills=[], written=0)
        _log.append(self._h)

    def Fill(self, *a):
        self._h["fills"].append([repr(float(x)) for x in a])

    def Write(self, *a):
        self._h["written"] += 1


class _Histo2(_Histo):
    dim = 2


TH1F = TH1D = TH1I = _Histo
TH2F = TH2D = TH2I = _Histo2
TFile = TCanvas = _Any
gROOT = gStyle = gPad = gDirectory = _Any()
kBlue, kRed, kBlack = 600, 632, 1


def __getattr__(n):
    if n.startswith("__"):
        raise AttributeError(n)
    return _Any()


@atexit.register
def _save():
    with open(os.environ["ROOT_LOG"], "w") as o:
        json.dump(_log, o)
