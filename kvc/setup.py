"""setup: build the AST dumper."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kvc import driver
os.makedirs(driver.BUILD, exist_ok=True)
sys.exit(0 if driver.build_kdump() else 1)
