"""setup_cmd: builds the IR extractor once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import build
import syn
print(build.tool()); print(build.tool("irlint")); print(syn.tool())
