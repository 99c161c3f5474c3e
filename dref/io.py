import os
from functools import lru_cache
from astropy.table import Table
import yaml

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")


@lru_cache(None)
def _met():
    return Table.read(os.path.join(DATA, "fp-metrology.csv"))


def load_metrology():
    return _met().copy()


def load_petal_alignement():
    with open(os.path.join(DATA, "petal-alignments.yaml")) as f:
        return yaml.safe_load(f)


def fvc2fp_filename():
    return os.path.join(DATA, "init-fvc2fp.json")


def dm2pm_filename():
    return os.path.join(DATA, "dm2pm.json")
