# GoTrivariate is not available here. This only lets configuration go on: it offers no header and no library.
set(GoTrivariate_LIBRARIES "")
set(GoTrivariate_INCLUDE_DIRS "")
