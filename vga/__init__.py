"""Value-graph analysis: a static global-value-numbering analysis for the Python sources of
the osml-imagery-toolkit.  Nothing in this package imports or executes the analysed code."""
