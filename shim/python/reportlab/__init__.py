"""Stand-in for the drawing library: shapes are kept, and a 'rendered' file lists them as they would appear on the page."""
