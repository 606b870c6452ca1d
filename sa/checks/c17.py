"""Files: what is written is what is read."""
from .. import speccheck

EXPLANATION = ('Abstract interpretation of the XML writer followed by the XML reader on arbitrary splines, of the IGES parameter '
               'data writer followed by the IGES entity reader, and of the IRIT writer. A text is abstracted to the sequence '
               'of the numbers written into it, an XML document to its tree of names, attributes and texts; loops that append '
               'to texts and loops that pick numbers are summarised in closed form, so the spline that is read is a term over '
               'the spline that was written.')
RULE = 'degree, knot, control point, weight, kind and number of the splines read == those of the splines written; numbers of an IRIT entry in the order of the format'
ASSUMPTIONS = ['numbers survive printing and parsing (decimal rounding and tokenising are not analysed)',
               'pugixml keeps the tree it is given']


def run(res, tier):
    speccheck.run(res, 'c11.cc', tier, select=lambda n: 'spec_raw' in n)
    speccheck.run(res, 'c17.cc', tier)
