// The connector of the tree under test, as it is.
#include "../connectors/kokkos/ccs-kokkos-connector.cpp"
