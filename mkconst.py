"""developer tool: records the constants of the unchanged source"""
import json
import sys
from pathlib import Path
sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))
from concrete import base
s, i = base.source_constants()
(Path(base.__file__).parent / "constants.json").write_text(json.dumps({"strs": sorted(s), "ints": sorted(i)}, indent=0) + "\n")
