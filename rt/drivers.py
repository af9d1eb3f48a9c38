"""Which scenarios exercise which property."""
from rt import worlds, tables, files

COMMON = {"world": worlds.world}
BY_PROPERTY = {
    "P10": {"spawning": tables.spawning},
    "P22": {"settings": files.settings_files},
    "P17": {"geography": files.geography},
    "P18": {"geography": files.geography},
    "P24": {"stored": worlds.stored},
    "P12": {"tables": tables.questions},
}


def for_property(p):
    return BY_PROPERTY.get(p, COMMON)
