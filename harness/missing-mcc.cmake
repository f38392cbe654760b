# Included right after project(emv-utils) through CMAKE_PROJECT_emv-utils_INCLUDE.
# mcc-codes/mcc_codes.json (an empty submodule here) is needed when the programs
# run, not to compile them, but src/CMakeLists.txt stops without it. This turns
# that one error into a warning; every other message is passed on unchanged.
function(message)
	if("${ARGV}" STREQUAL "FATAL_ERROR;mcc-codes/mcc_codes.json not found")
		_message(WARNING "mcc-codes/mcc_codes.json not found: MCC lookups have no data")
	elseif("${ARGV}" STREQUAL "")
		_message("")
	else()
		_message(${ARGV})
	endif()
endfunction()
