// Explicit instantiations of the library's public templates that the library itself does not instantiate.
// The text verified is the template text of the headers in /repo.
#include "pe_bliss.h"
namespace pe_bliss
{
template uint8_t pe_base::section_data_from_rva<uint8_t>(const section&, uint32_t, section_data_type) const;
template uint32_t pe_base::section_data_from_rva<uint32_t>(const section&, uint32_t, section_data_type) const;
template uint64_t pe_base::section_data_from_rva<uint64_t>(const section&, uint32_t, section_data_type) const;
template uint32_t pe_base::section_data_from_va<uint32_t>(const section&, uint32_t, section_data_type) const;
template uint32_t pe_base::section_data_from_va<uint32_t>(const section&, uint64_t, section_data_type) const;
template uint32_t pe_base::section_data_from_va<uint32_t>(uint32_t, section_data_type, bool) const;
template uint32_t pe_base::section_data_from_va<uint32_t>(uint64_t, section_data_type, bool) const;
template uint64_t pe_base::section_data_from_rva<uint64_t>(uint32_t, section_data_type, bool) const;
}
