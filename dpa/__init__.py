"""Static analyser for direpack: an abstract interpreter over the syntax tree."""
