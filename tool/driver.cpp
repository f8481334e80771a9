// Analysis driver: pulls in every header of the library and names the templates
// whose instantiations are analysed.  Never linked or run.
#include "crypto/setup.hpp"
#include "crypto/otp.hpp"
#include "commitment/pedersen.hpp"
#include "adcp/adcp.hpp"
#include "signature/accountable_ring_sig.hpp"
#include "signature/schnorr.hpp"
#include "pke/elgamal.hpp"
#include "pke/exponential_elgamal.hpp"
#include "pke/twisted_exponential_elgamal.hpp"
#include "zkp/nizk/nizk_plaintext_knowledge.hpp"
#include "zkp/nizk/nizk_plaintext_equality.hpp"
#include "zkp/nizk/nizk_enc_relation.hpp"
#include "zkp/nizk/nizk_dlog_knowledge.hpp"
#include "zkp/nizk/nizk_dlog_equality.hpp"
#include "zkp/bulletproofs/bullet_proof.hpp"
#include "gadget/range_proof.hpp"
#include "filter/cuckoo_filter.hpp"
#include "filter/bloom_filter.hpp"
#include "mpc/pso/mqrpmt_private_id.hpp"
#include "mpc/pso/mqrpmt_psi.hpp"
#include "mpc/pso/mqrpmt_psi_card.hpp"
#include "mpc/pso/mqrpmt_psi_card_sum.hpp"
#include "mpc/pso/mqrpmt_psu.hpp"
#include "mpc/psi/cwprf_psi.hpp"
#include "mpc/peqt/peqt_from_ddh.hpp"
#include "mpc/ot/iknp_ote.hpp"
#include "mpc/oprf/ddh_oprf.hpp"
#include "mpc/rpmt/rrpke_mqrpmt.hpp"
#include "utility/polymul.hpp"
// instantiations of the filter templates
#ifndef KAI_NO_INST
void kai_filters(BloomFilter &b, CuckooFilter &c, uint64_t x, std::vector<std::string> v)
{
    b.Insert(x); b.Contain(x); b.Insert(v); b.Contain(v); b.Insert(v.begin(), v.end());
    c.Insert(x); c.Contain(x); c.Delete(x); c.Insert(v); c.Insert(v.begin(), v.end());
}
#endif
int main() {}
