from .props import PROPS

PROPERTIES = {p["id"]: (p["title"], p["rules"]) for p in PROPS}
