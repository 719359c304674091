//! Programs made by tools/c13.py are compiled here.
