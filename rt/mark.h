// Included before every source of the checks (not of the library): their static data is kept apart,
// so that heap blocks the library's own static data holds on to can be told from leaked ones.
#pragma clang section bss="verif_bss" data="verif_data"
