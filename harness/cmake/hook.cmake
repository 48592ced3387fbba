# injected after project(meqtrees): builds /repo's libraries and our harnesses out of tree
set(VHOOKDIR ${CMAKE_CURRENT_LIST_DIR})
cmake_language(DEFER CALL include ${VHOOKDIR}/post.cmake)
