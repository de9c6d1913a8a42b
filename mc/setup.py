"""setup_cmd: builds the case runner and the checker variants."""
from mc import engine
engine.runner()
for k in ("rel", "dbg", "asan"):
    print(engine.build(k))
