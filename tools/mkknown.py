#!/usr/bin/env python3
"""Writes known_findings.json: defects recorded as open, and those repaired."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []
def open_(id, prop, what):
    F.append({"id": id, "property": prop, "status": "open", "what": what})
def fixed(prop, commit, what):
    F.append({"id": "fixed-" + commit, "property": prop, "status": "fixed", "commit": commit, "what": what,
              "record": "fixed: property=%s %s %s" % (prop, commit, what)})
open_("crlf-raw", "C19", "a range containing a carriage return followed by a line feed: ToRawString yields two line feeds instead of one (pinned by the existing to_string tests)")
open_("crlf", "C20", "a range containing a carriage return followed by a line feed: ToString yields two line feeds instead of one (pinned by the existing to_string tests)")
open_("slice-to-end", "C25", "a byte buffer slice that ends exactly at the end of the buffer is refused (pinned by the existing byte buffer tests)")
open_("object-size-22", "C22", "an object buffer reports its number of pages, not of elements, as size (pinned by the existing object buffer tests)")
open_("object-size-23", "C23", "an object buffer reports its number of pages, not of elements, as size (pinned by the existing object buffer tests)")
fixed("C22", "27388f9", "appends across pages, conversion and refill of long, int and object buffers")
fixed("C24", "0cbe722", "the upper half of a long entry lost bits")
fixed("C26", "8b08f97", "page-size exponents 0 and above 30 gave unusable buffers or panics")
fixed("C25", "2eaa6f1", "byte slices ignored their offset")
fixed("C28", "cd26a39", "control characters counted as valid XML characters")
fixed("C31", "d86904c", "illegal directions gave an error of another type")
fixed("C27", "8c9912e", "readers read outside their window and decoded multi-byte characters wrongly")
fixed("C30", "030372e", "documents without declared encoding were refused by the modifier")
fixed("C32", "e306af1", "byte order marks were not recognised")
fixed("C13", "79e62ba", "parsing printed to standard output and filled the exported error values")
fixed("C03", "101ecf8", "documents starting with an instruction such as <?xm?> were misread")
fixed("C08", "1d26d58", "XML declarations with differing quotes or missing white space were accepted")
fixed("C08", "f1cbc5e", "declared ASCII encodings were refused")
fixed("C02", "5722825", "stray end tags panicked")
fixed("C03", "d192db3", "comments and instructions after the root were refused")
fixed("C02", "1a0f388", "']]' not followed by '>' ended CDATA sections")
fixed("C02", "bcba5a4", "document type declarations were accepted after the root and refused in the prolog")
fixed("C03", "97a0319", "markup characters inside literals ended the document type declaration")
fixed("C15", "b079204", "GetNav returned nothing")
fixed("C15", "f2b870c", "element moves found no location cache")
fixed("C11", "345b8e4", "records of long text had offset 0")
fixed("C05", "5e03969", "more than a fixed number of attributes panicked")
fixed("C07", "9b05064", "namespace names were compared unresolved")
fixed("C09", "a2ad6c5", "character references with many digits wrapped around")
fixed("C14", "9ef53da", "the line of a line feed was off by one")
fixed("C29", "b970cd7", "windows with negative or overflowing length were accepted")
fixed("C17", "fb078f6", "last child, previous sibling and parent moves went astray")
fixed("C11", "c305f02", "the length of a run included a neighbouring token")
fixed("C20", "828d076", "resolved strings did not resolve references")
fixed("C21", "0365c8f", "ranges outside the document panicked")
fixed("C12", "bbcbe25", "the document token of a window had offset 0, so that its string could not be read")
fixed("C33", "830feae", "GetNav returned a partial navigation object after a failed parse")
open(here + "/known_findings.json", "w").write(json.dumps({"findings": F}, indent=1) + "\n")
