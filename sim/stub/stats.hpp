// Stands in for the statistics library, of which the sample set parser uses nothing.
