from catalog import SPECS
