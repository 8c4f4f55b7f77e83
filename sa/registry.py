"""Rule registry: property id -> rule module and function, from props.py."""
import props

RULES = {p["id"]: (p["rule"][0], p["rule"][1], p["explanation"], p.get("assumptions", []))
         for p in props.PROPS if p.get("rule")}
