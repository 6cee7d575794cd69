# GoTools is not available here. This only lets configuration go on: it offers no header and no library.
set(GoTools_LIBRARIES "")
set(GoTools_INCLUDE_DIRS "")
