// The installed Eigen lacks SparseMatrix::setFromSortedTriplets (a newer-Eigen member the repository uses): same meaning.
template<typename InputIterators>
void setFromSortedTriplets(const InputIterators& b, const InputIterators& e) { this->setFromTriplets(b, e); }
template<typename InputIterators, typename DupFunctor>
void setFromSortedTriplets(const InputIterators& b, const InputIterators& e, DupFunctor f) { this->setFromTriplets(b, e, f); }
