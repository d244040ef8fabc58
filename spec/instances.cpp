// Explicit instantiations of header templates so that every member gets compiled and verified.
#include "utils/Buffer.h"
using namespace eipScanner;
template class cip::CipBaseString<cip::CipUsint>;
template class cip::CipBaseString<cip::CipUint>;
template utils::Buffer& utils::Buffer::operator<< <cip::CipUsint>(const cip::CipBaseString<cip::CipUsint>&);
template utils::Buffer& utils::Buffer::operator>> <cip::CipUsint>(cip::CipBaseString<cip::CipUsint>&);
template utils::Buffer& utils::Buffer::operator<< <cip::CipUint>(const cip::CipBaseString<cip::CipUint>&);
template utils::Buffer& utils::Buffer::operator>> <cip::CipUint>(cip::CipBaseString<cip::CipUint>&);
#include "ParameterObject.h"
#define VALUES(T) \
template T ParameterObject::getActualValue<T>() const; \
template T ParameterObject::getMinValue<T>() const; \
template T ParameterObject::getMaxValue<T>() const; \
template T ParameterObject::getDefaultValue<T>() const; \
template cip::CipLreal ParameterObject::getEngValue<T>() const; \
template cip::CipLreal ParameterObject::getEngMinValue<T>() const; \
template cip::CipLreal ParameterObject::getEngMaxValue<T>() const; \
template cip::CipLreal ParameterObject::getEngDefaultValue<T>() const; \
template void ParameterObject::setEngMinValue<T>(cip::CipLreal); \
template void ParameterObject::setEngMaxValue<T>(cip::CipLreal); \
template void ParameterObject::setEngDefaultValue<T>(cip::CipLreal);
VALUES(cip::CipUsint)
VALUES(cip::CipSint)
VALUES(cip::CipUint)
VALUES(cip::CipInt)
VALUES(cip::CipUdint)
VALUES(cip::CipDint)
VALUES(cip::CipUlint)
VALUES(cip::CipLint)
VALUES(cip::CipReal)
VALUES(cip::CipLreal)
