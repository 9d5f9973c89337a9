"""Static analysis framework for NodeFinder (standard library only, never imports the analysed code)."""
