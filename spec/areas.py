"""Properties of whole areas of the library; every module registers its contracts."""
from . import a_coords, a_derived, a_files, a_geometry, a_registry, a_search, a_times, a_tracks, a_valid  # noqa: F401
