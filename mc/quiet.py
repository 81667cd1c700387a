"""Keep warnings from drowning the checks (FIAT installs a global 'always' filter)."""
import warnings

warnings.simplefilter("ignore")
warnings.simplefilter = lambda *a, **k: None
warnings.showwarning = lambda *a, **k: None
