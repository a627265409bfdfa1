"""setup_cmd: builds the MIR exporter (needs no network)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pipeline
print(pipeline.driver())
