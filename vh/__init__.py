"""verification harness: runtime monitors for pyRFtk"""
