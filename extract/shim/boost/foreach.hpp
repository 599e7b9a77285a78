// Extraction shim: BOOST_FOREACH as the language's own range-for (same element order, same
// single evaluation of the range).  Used only when /repo is parsed for extraction; the code that
// is compiled and run uses the real Boost header.
#ifndef BOOST_FOREACH
// loop variable declared before the loop: every element is assigned to it (cxxdump rewrites the
// macro's name when its first argument is a bare identifier)
#define BOOST_FOREACH_ASSIGN(VAR, COL) for (const auto & verif_item_ : COL) if ((VAR = verif_item_), true)
#define BOOST_FOREACH(VAR, COL) for (VAR : COL)
template <class C> const C verif_reverse(const C& c);
#define BOOST_REVERSE_FOREACH(VAR, COL) for (VAR : verif_reverse(COL))
#endif
