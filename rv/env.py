"""Process set-up shared by every check: quiet third-party libraries, stub for pdal."""
import os
import sys
import types


def prepare():
    os.environ.setdefault("MPLBACKEND", "Agg")
    from osgeo import gdal
    gdal.PushErrorHandler("CPLQuietErrorHandler")
    try:
        import cv2
        cv2.setNumThreads(1)
    except ImportError:
        pass
    import logging
    logging.disable(logging.CRITICAL)


class FakePdalPipeline(object):
    """Stand-in for pdal.Pipeline: pdal is not installed.  It only serves the arrays registered for a file."""
    FILES = {}

    def __init__(self, text):
        import json
        self.spec = json.loads(text)
        self.arrays = []

    def validate(self):
        return True

    def execute(self):
        stages = self.spec["pipeline"] if isinstance(self.spec, dict) else self.spec
        p = stages[0]
        self.arrays = [FakePdalPipeline.FILES[p["filename"] if isinstance(p, dict) else p]]
        return len(self.arrays[0])


def install_pdal_stub():
    if "pdal" not in sys.modules:
        m = types.ModuleType("pdal")
        m.Pipeline = FakePdalPipeline
        sys.modules["pdal"] = m
