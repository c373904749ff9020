/* The named CRC functions and their published parameter sets (reveng catalogue), with catalogue check values. */
#include "crc_variants.h"

#include "crc16_a.h"
#include "crc16_arc.h"
#include "crc16_aug_ccit.h"
#include "crc16_buypass.h"
#include "crc16_ccit_false.h"
#include "crc16_ccit_zero.h"
#include "crc16_cdma2000.h"
#include "crc16_dds110.h"
#include "crc16_dect_r.h"
#include "crc16_dect_x.h"
#include "crc16_dnp.h"
#include "crc16_en_13757.h"
#include "crc16_genibus.h"
#include "crc16_kermit.h"
#include "crc16_maxim.h"
#include "crc16_mcrf4xx.h"
#include "crc16_modbus.h"
#include "crc16_riello.h"
#include "crc16_t10_dif.h"
#include "crc16_teledisk.h"
#include "crc16_tms37157.h"
#include "crc16_usb.h"
#include "crc16_x_25.h"
#include "crc32.h"
#include "crc32_bzip2.h"
#include "crc32_c.h"
#include "crc32_d.h"
#include "crc32_jamcrc.h"
#include "crc32_mpeg2.h"
#include "crc32_posix.h"
#include "crc32_q.h"
#include "crc32_xfer.h"
#include "crc8.h"
#include "crc8_8h2f.h"
#include "crc8_cdma2000.h"
#include "crc8_darc.h"
#include "crc8_dvb_s2.h"
#include "crc8_ebu.h"
#include "crc8_icode.h"
#include "crc8_itu.h"
#include "crc8_maxim.h"
#include "crc8_rohc.h"
#include "crc8_sae_j1850.h"
#include "crc8_sae_j1850_zero.h"
#include "crc8_wcdma.h"

static uint32_t
w_Crc8(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc8(p, n, (const uint8_t*)last);
}

static uint32_t
w_Crc8_8h2f(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc8_8h2f(p, n, fin, (const uint8_t*)last);
}

static uint32_t
w_Crc8_cdma2000(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc8_cdma2000(p, n, (const uint8_t*)last);
}

static uint32_t
w_Crc8_darc(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc8_darc(p, n, fin, (const uint8_t*)last);
}

static uint32_t
w_Crc8_dvbS2(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc8_dvbS2(p, n, (const uint8_t*)last);
}

static uint32_t
w_Crc8_ebu(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc8_ebu(p, n, fin, (const uint8_t*)last);
}

static uint32_t
w_Crc8_icode(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc8_icode(p, n, (const uint8_t*)last);
}

static uint32_t
w_Crc8_itu(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc8_itu(p, n, fin, (const uint8_t*)last);
}

static uint32_t
w_Crc8_maxim(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc8_maxim(p, n, fin, (const uint8_t*)last);
}

static uint32_t
w_Crc8_rohc(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc8_rohc(p, n, fin, (const uint8_t*)last);
}

static uint32_t
w_Crc8_saeJ1850(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc8_saeJ1850(p, n, fin, (const uint8_t*)last);
}

static uint32_t
w_Crc8_saeJ1850Zero(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc8_saeJ1850Zero(p, n, (const uint8_t*)last);
}

static uint32_t
w_Crc8_wcdma(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc8_wcdma(p, n, fin, (const uint8_t*)last);
}

static uint32_t
w_Crc16_a(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc16_a(p, n, fin, (const uint16_t*)last);
}

static uint32_t
w_Crc16_arc(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc16_arc(p, n, fin, (const uint16_t*)last);
}

static uint32_t
w_Crc16_augCcit(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc16_augCcit(p, n, (const uint16_t*)last);
}

static uint32_t
w_Crc16_buypass(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc16_buypass(p, n, (const uint16_t*)last);
}

static uint32_t
w_Crc16_ccitFalse(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc16_ccitFalse(p, n, (const uint16_t*)last);
}

static uint32_t
w_Crc16_ccitZero(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc16_ccitZero(p, n, (const uint16_t*)last);
}

static uint32_t
w_Crc16_cdma2000(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc16_cdma2000(p, n, (const uint16_t*)last);
}

static uint32_t
w_Crc16_dds110(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc16_dds110(p, n, (const uint16_t*)last);
}

static uint32_t
w_Crc16_dectR(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc16_dectR(p, n, fin, (const uint16_t*)last);
}

static uint32_t
w_Crc16_dectX(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc16_dectX(p, n, (const uint16_t*)last);
}

static uint32_t
w_Crc16_dnp(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc16_dnp(p, n, fin, (const uint16_t*)last);
}

static uint32_t
w_Crc16_en13757(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc16_en13757(p, n, fin, (const uint16_t*)last);
}

static uint32_t
w_Crc16_genibus(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc16_genibus(p, n, fin, (const uint16_t*)last);
}

static uint32_t
w_Crc16_kermit(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc16_kermit(p, n, fin, (const uint16_t*)last);
}

static uint32_t
w_Crc16_maxim(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc16_maxim(p, n, fin, (const uint16_t*)last);
}

static uint32_t
w_Crc16_mcrf4xx(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc16_mcrf4xx(p, n, fin, (const uint16_t*)last);
}

static uint32_t
w_Crc16_modbus(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc16_modbus(p, n, fin, (const uint16_t*)last);
}

static uint32_t
w_Crc16_riello(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc16_riello(p, n, fin, (const uint16_t*)last);
}

static uint32_t
w_Crc16_t10Dif(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc16_t10Dif(p, n, (const uint16_t*)last);
}

static uint32_t
w_Crc16_teledisk(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc16_teledisk(p, n, (const uint16_t*)last);
}

static uint32_t
w_Crc16_tms37157(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc16_tms37157(p, n, fin, (const uint16_t*)last);
}

static uint32_t
w_Crc16_usb(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc16_usb(p, n, fin, (const uint16_t*)last);
}

static uint32_t
w_Crc16_x25(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc16_x25(p, n, fin, (const uint16_t*)last);
}

static uint32_t
w_Crc32(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc32(p, n, fin, (const uint32_t*)last);
}

static uint32_t
w_Crc32_bzip2(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc32_bzip2(p, n, fin, (const uint32_t*)last);
}

static uint32_t
w_Crc32_c(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc32_c(p, n, fin, (const uint32_t*)last);
}

static uint32_t
w_Crc32_d(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc32_d(p, n, fin, (const uint32_t*)last);
}

static uint32_t
w_Crc32_jamcrc(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc32_jamcrc(p, n, fin, (const uint32_t*)last);
}

static uint32_t
w_Crc32_mpeg2(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc32_mpeg2(p, n, (const uint32_t*)last);
}

static uint32_t
w_Crc32_posix(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    return Crc32_posix(p, n, fin, (const uint32_t*)last);
}

static uint32_t
w_Crc32_q(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc32_q(p, n, (const uint32_t*)last);
}

static uint32_t
w_Crc32_xfer(const uint8_t* p, uint32_t n, bool fin, const void* last) {
    (void)fin;
    return Crc32_xfer(p, n, (const uint32_t*)last);
}

const crc_variant crc_variants[] = {
    {"Crc8", false, w_Crc8, {8U, 0x07U, 0x00U, false, false, 0x00U}, 0xF4U},
    {"Crc8_8h2f", true, w_Crc8_8h2f, {8U, 0x2FU, 0xFFU, false, false, 0xFFU}, 0xDFU},
    {"Crc8_cdma2000", false, w_Crc8_cdma2000, {8U, 0x9BU, 0xFFU, false, false, 0x00U}, 0xDAU},
    {"Crc8_darc", true, w_Crc8_darc, {8U, 0x39U, 0x00U, true, true, 0x00U}, 0x15U},
    {"Crc8_dvbS2", false, w_Crc8_dvbS2, {8U, 0xD5U, 0x00U, false, false, 0x00U}, 0xBCU},
    {"Crc8_ebu", true, w_Crc8_ebu, {8U, 0x1DU, 0xFFU, true, true, 0x00U}, 0x97U},
    {"Crc8_icode", false, w_Crc8_icode, {8U, 0x1DU, 0xFDU, false, false, 0x00U}, 0x7EU},
    {"Crc8_itu", true, w_Crc8_itu, {8U, 0x07U, 0x00U, false, false, 0x55U}, 0xA1U},
    {"Crc8_maxim", true, w_Crc8_maxim, {8U, 0x31U, 0x00U, true, true, 0x00U}, 0xA1U},
    {"Crc8_rohc", true, w_Crc8_rohc, {8U, 0x07U, 0xFFU, true, true, 0x00U}, 0xD0U},
    {"Crc8_saeJ1850", true, w_Crc8_saeJ1850, {8U, 0x1DU, 0xFFU, false, false, 0xFFU}, 0x4BU},
    {"Crc8_saeJ1850Zero", false, w_Crc8_saeJ1850Zero, {8U, 0x1DU, 0x00U, false, false, 0x00U}, 0x37U},
    {"Crc8_wcdma", true, w_Crc8_wcdma, {8U, 0x9BU, 0x00U, true, true, 0x00U}, 0x25U},
    {"Crc16_a", true, w_Crc16_a, {16U, 0x1021U, 0xC6C6U, true, true, 0x0U}, 0xBF05U},
    {"Crc16_arc", true, w_Crc16_arc, {16U, 0x8005U, 0x0U, true, true, 0x0U}, 0xBB3DU},
    {"Crc16_augCcit", false, w_Crc16_augCcit, {16U, 0x1021U, 0x1D0FU, false, false, 0x0U}, 0xE5CCU},
    {"Crc16_buypass", false, w_Crc16_buypass, {16U, 0x8005U, 0x0U, false, false, 0x0U}, 0xFEE8U},
    {"Crc16_ccitFalse", false, w_Crc16_ccitFalse, {16U, 0x1021U, 0xFFFFU, false, false, 0x0U}, 0x29B1U},
    {"Crc16_ccitZero", false, w_Crc16_ccitZero, {16U, 0x1021U, 0x0U, false, false, 0x0U}, 0x31C3U},
    {"Crc16_cdma2000", false, w_Crc16_cdma2000, {16U, 0xC867U, 0xFFFFU, false, false, 0x0U}, 0x4C06U},
    {"Crc16_dds110", false, w_Crc16_dds110, {16U, 0x8005U, 0x800DU, false, false, 0x0U}, 0x9ECFU},
    {"Crc16_dectR", true, w_Crc16_dectR, {16U, 0x0589U, 0x0U, false, false, 0x1U}, 0x007EU},
    {"Crc16_dectX", false, w_Crc16_dectX, {16U, 0x0589U, 0x0U, false, false, 0x0U}, 0x007FU},
    {"Crc16_dnp", true, w_Crc16_dnp, {16U, 0x3D65U, 0x0U, true, true, 0xFFFFU}, 0xEA82U},
    {"Crc16_en13757", true, w_Crc16_en13757, {16U, 0x3D65U, 0x0U, false, false, 0xFFFFU}, 0xC2B7U},
    {"Crc16_genibus", true, w_Crc16_genibus, {16U, 0x1021U, 0xFFFFU, false, false, 0xFFFFU}, 0xD64EU},
    {"Crc16_kermit", true, w_Crc16_kermit, {16U, 0x1021U, 0x0U, true, true, 0x0U}, 0x2189U},
    {"Crc16_maxim", true, w_Crc16_maxim, {16U, 0x8005U, 0x0U, true, true, 0xFFFFU}, 0x44C2U},
    {"Crc16_mcrf4xx", true, w_Crc16_mcrf4xx, {16U, 0x1021U, 0xFFFFU, true, true, 0x0U}, 0x6F91U},
    {"Crc16_modbus", true, w_Crc16_modbus, {16U, 0x8005U, 0xFFFFU, true, true, 0x0U}, 0x4B37U},
    {"Crc16_riello", true, w_Crc16_riello, {16U, 0x1021U, 0xB2AAU, true, true, 0x0U}, 0x63D0U},
    {"Crc16_t10Dif", false, w_Crc16_t10Dif, {16U, 0x8BB7U, 0x0U, false, false, 0x0U}, 0xD0DBU},
    {"Crc16_teledisk", false, w_Crc16_teledisk, {16U, 0xA097U, 0x0U, false, false, 0x0U}, 0x0FB3U},
    {"Crc16_tms37157", true, w_Crc16_tms37157, {16U, 0x1021U, 0x89ECU, true, true, 0x0U}, 0x26B1U},
    {"Crc16_usb", true, w_Crc16_usb, {16U, 0x8005U, 0xFFFFU, true, true, 0xFFFFU}, 0xB4C8U},
    {"Crc16_x25", true, w_Crc16_x25, {16U, 0x1021U, 0xFFFFU, true, true, 0xFFFFU}, 0x906EU},
    {"Crc32", true, w_Crc32, {32U, 0x04C11DB7U, 0xFFFFFFFFU, true, true, 0xFFFFFFFFU}, 0xCBF43926U},
    {"Crc32_bzip2", true, w_Crc32_bzip2, {32U, 0x04C11DB7U, 0xFFFFFFFFU, false, false, 0xFFFFFFFFU}, 0xFC891918U},
    {"Crc32_c", true, w_Crc32_c, {32U, 0x1EDC6F41U, 0xFFFFFFFFU, true, true, 0xFFFFFFFFU}, 0xE3069283U},
    {"Crc32_d", true, w_Crc32_d, {32U, 0xA833982BU, 0xFFFFFFFFU, true, true, 0xFFFFFFFFU}, 0x87315576U},
    {"Crc32_jamcrc", true, w_Crc32_jamcrc, {32U, 0x04C11DB7U, 0xFFFFFFFFU, true, true, 0x0U}, 0x340BC6D9U},
    {"Crc32_mpeg2", false, w_Crc32_mpeg2, {32U, 0x04C11DB7U, 0xFFFFFFFFU, false, false, 0x0U}, 0x0376E6E7U},
    {"Crc32_posix", true, w_Crc32_posix, {32U, 0x04C11DB7U, 0x0U, false, false, 0xFFFFFFFFU}, 0x765E7680U},
    {"Crc32_q", false, w_Crc32_q, {32U, 0x814141ABU, 0x0U, false, false, 0x0U}, 0x3010BF7FU},
    {"Crc32_xfer", false, w_Crc32_xfer, {32U, 0x000000AFU, 0x0U, false, false, 0x0U}, 0xBD0BE338U},
};
const unsigned n_crc_variants = sizeof(crc_variants) / sizeof(crc_variants[0]);
