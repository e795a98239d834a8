"""Record layouts of the parameter objects, as a table.

Items of a layout, in wire order:
  name u1|u2|u4      little-endian number            name f4|f8    IEEE number          name r4   IEEE number rounded to 7 decimals
  name tN            device text of N bytes          name hN       hexadecimal text     name ip   IPv4 address
  name =M[>>S]       flag / bit field M (shifted) of the byte before it                 - N       N unused bytes
  name gas           gas composition                 name rows     as many rows of 10 bytes (hexadecimal) as the byte before says
  ?                  what follows is there as a whole or missing as a whole (then None)
"""
import re

Q = "number u2, id u2, address_in_actual_values u2, address_in_data_archive_record u2, bit_control u1, in_data_archive =1, in_daily_archive =2, in_monthly_archive =4, "
METRO = "is_metrological_quantity =0x10, "
FACT = "in_factory_archive =8, "
B = ("number u2, id u2, bit_order_in_actual_values u2, bit_order_in_data_archive_record u2, bit_order_in_binary_archive_record u2, bit_control u1, "
     "in_binary_archive =1, in_data_archive =2, ")
NU = "name t23, unit t8, "
DM = "address_in_daily_archive_record u2, address_in_monthly_archive_record u2"
DMB = DM + ", address_in_billing_archive_record u2"
DEC = ", ?, decimals u1"
LOG = "?, action_during_change u1, text_log_0 t13, text_log_1 t13"
ERR = "error_bit_order_in_actual_values u2, error_bit_order_in_binary_archive u2, error_bit_order_in_data_archive u2, "
ERRB = "error_bit_order_in_actual_values u2, error_bit_order_in_binary_archive_record u2, error_bit_order_in_data_archive_record u2, "

ANALOG = (Q + METRO + "in_fast_archive_1 =0x20, in_fast_archvie_2 =0x40, " + NU + "digit r4, offset f4, lower_limit_measuring_range r4, "
          "upper_limit_measuring_range f4, serial_number_transducer u4, " + ERR + DM + ", samples_in_fast_archive u1" + DEC)
BINARY = B + "active_indicator =0x40, name t23, " + ERRB + LOG
COUNTER = (Q + FACT + METRO + "accept_counting_direction =0x40, " + NU + "digit f8, serial_number_of_gas_meter u4, " + ERR + DMB
           + ", serial_number_of_gas_meter_text t17" + DEC)
STANDARD = Q + FACT + METRO + NU + "number_of_primary_counter u1, number_of_conversion u1, " + DMB + DEC
FLOW = Q + METRO + NU + ERR + DM + DEC
STANDARD_FLOW = Q + METRO + NU + "number_of_primary_flow_rate u1, number_of_conversion u1, " + DM + DEC
CONVERSION = (Q + METRO + "name t23, number_of_analog_pressure u1, number_of_analog_temperature u1, compressibility_calculation_method u1, "
              "default_value_pressure f4, default_value_temperature f4, alternate_value_of_compressibility f4, " + DM + DEC)
ERROR_COUNTER = Q + FACT + METRO + NU + "digit f8, number_of_primary_counter u1, " + DMB + DEC
ERROR_STANDARD = Q + FACT + METRO + NU + "number_of_standard_counter u1, " + DMB + DEC
COMPRESSIBILITY = Q + METRO + "name t23, number_of_conversion_coefficient u1, " + DM + DEC
TIME_WINDOW = B + "name t23, rows_in_window u1, rows rows, " + LOG
DIAGNOSTICS = (Q + FACT + "name t23, " + DM + ", mask_1_of_status_archive u4, mask_2_of_status_archive u4, mask_1_of_alarm u4, mask_2_of_alarm u4, "
               "mask_1_of_calling_to_dispatching u4, mask_2_of_calling_to_dispatching u4, action_during_change u1")
ALARMS = B + "name t23, " + LOG
TIMER = Q + METRO + "name t23, " + DM
TARIFF = Q + FACT + METRO + NU + "digit f8, number_of_primary_counter u1, tariff u1, " + DMB + DEC
BASE_TARIFF = Q + FACT + METRO + NU + "number_of_base_counter u1, tariff u1, " + DMB + DEC
SET_POINT = B + "active_indicator =0x40, name t23, value_of_limit f4, type_of_primary_quantity u1, number_of_primary_quantity u1, " + LOG
DIFFERENCE = Q + "is_double =8, " + METRO + NU + "digit f8, number_of_primary_counter u1, " + DMB + DEC
ENERGY = Q + FACT + METRO + NU + "number_of_standard_counter u1, number_of_calorific_value u1, number_of_conversion u1, " + DMB + DEC
ANALOG_STATISTICS = Q + METRO + NU + "digit r4, offset f4, number_of_primary_quantity u1, statistics_type u1, " + DM + DEC
COUNTER_STATISTICS = Q + METRO + NU + "digit f8, type_of_primary_quantity u1, number_of_primary_quantity u1, statistics_type u1, " + DM
MODEM = ("number u1, bit_control_0 u1, title t7, modem_type u1, initialization t32, call_to_dispatching t32, modem_hang_up t8, special_initialization t80, "
         "ip_address_for_registration_and_diagnostics ip, ip_address_for_calling_to_dispatching ip, registration_send_period u1, authentication_mode u1, "
         "port_for_registration u2, port_for_calling_to_dispatching u2, sms_call t32, gprs_user_name t49, gprs_password h33, ip_address_for_ping ip, "
         "ping_period u2, transition_into_command_mode t8, pin h9, owner_sim_number t17")
SYSTEM = ("device_type u1, serial_number u4, firmware_version t5, service_version u1, certification_variant u1, station_id t17, access u1, "
          "password_for_full_access_active =1, password_for_reading_is_on =2, metrological_switch =4, user_switch =8, switch_function =0x30>>4, "
          "parameter_crc u2, measuring_period u1, archive_period u2, base_pressure f4, base_temperature f4, compressibility_formula u1, gas_composition gas, "
          "data_archive_record_length u2, binary_archive_record_length u2, daily_archive_record_length u2, monthly_archive_record_length u2, "
          "instantaneous_values_error_bit_order u2, binary_archive_record_error_bit_order u2, data_archive_record_error_bit_order u2, "
          "optical_port_speed u1, optical_port_protocol u1, optical_port_bit_control u1, "
          "communication_port_0_speed u1, communication_port_0_protocol u1, communication_port_0_bit_control u1, "
          "communication_port_1_speed u1, communication_port_1_protocol u1, communication_port_1_bit_control u1, "
          "communication_port_2_speed u1, communication_port_2_protocol u1, communication_port_2_bit_control u1, "
          "gas_day_hour u1, fixed_barometric_pressure f4, altitude f4, - 17, status_archive_record_length u2, "
          "pressure_unit_type u1, pressure_unit_text t8, temperature_unit_type u1, temperature_unit_text t8, altitude_unit_type u1, altitude_unit_text t8, "
          "gross_calorific_value_type u1, gross_calorific_value_text t8, dst_region u1, gmt_hour_shift u1, billing_archive_record_length u2, "
          "conditions_for_combustion_heat u1, device_variant u1, - 1, bit_control u1, places_for_corrected_volume_counters u1, device_features_bits u1, "
          "device_features h16, version_metrological_part t5, metrological_crc u2, metrological_crc_32 u4, application_crc_32 u4")
HIDDEN = {"access"}          # read, but not a field of the decoded object
GAS = ("co2 n2 combustion_heat relative_density h2 h2s he h2o o2 ar co c1h4 c2h6 c3h8 ic4h10 nc4h10 ic5h12 nc5h12 c6h14 c7h16 c8h18 c9h20 c10h22").split()

# type number -> (name of the type, layout, value length or None)
TYPES = {
    0: ("SYSTEM_PARAMETER", SYSTEM, None), 30: ("ANALOG_MEASURAND", ANALOG, 2), 31: ("BINARY", BINARY, None), 32: ("COUNTER", COUNTER, 4),
    33: ("STANDARD_COUNTER", STANDARD, 8), 34: ("FLOW_RATE", FLOW, 4), 35: ("STANDARD_FLOW_RATE", STANDARD_FLOW, 4),
    36: ("CONVERSION_COEFFICIENT", CONVERSION, 4), 45: ("ERROR_COUNTER", ERROR_COUNTER, 4), 46: ("ERROR_STANDARD_COUNTER", ERROR_STANDARD, 8),
    47: ("COMPRESSIBILITY", COMPRESSIBILITY, 4), 48: ("TIME_WINDOW", TIME_WINDOW, None), 49: ("CORRECTION_COUNTER", ERROR_COUNTER, 4),
    53: ("DOUBLE_COUNTER", COUNTER, 8), 54: ("DOUBLE_ERROR_COUNTER", ERROR_COUNTER, 8), 59: ("DIAGNOSTICS", DIAGNOSTICS, None),
    61: ("DEVICE_ERROR", ALARMS, None), 62: ("SUM_OF_ALARMS", ALARMS, None), 65: ("TIMER", TIMER, 4), 68: ("TARIFF_COUNTER", TARIFF, 4),
    69: ("BASE_TARIFF_COUNTER", BASE_TARIFF, 8), 70: ("SET_POINT", SET_POINT, None), 72: ("DIFFERENCE_COUNTER", DIFFERENCE, 8),
    73: ("DIFFERENCE_BASE_COUNTER", DIFFERENCE, 8), 74: ("COMPRESSIBILITY_Z", COMPRESSIBILITY, 4), 75: ("COMPRESSIBILITY_Z_BASE", COMPRESSIBILITY, 4),
    77: ("ENERGY", ENERGY, None), 78: ("ERROR_ENERGY", ENERGY, None), 79: ("DOUBLE_TARIFF_COUNTER", TARIFF, 8),
    80: ("ANALOG_STATISTICS", ANALOG_STATISTICS, None), 81: ("COUNTER_STATISTICS", COUNTER_STATISTICS, None),
    82: ("STANDARD_COUNTER_STATISTICS", COUNTER_STATISTICS, None), 83: ("STATISTICS", ANALOG_STATISTICS, None),
    84: ("ANALOG_TIME_STATISTICS", ANALOG_STATISTICS, None), 85: ("TIME_STATISTICS", ANALOG_STATISTICS, None), 141: ("MODEM", MODEM, None),
}


def items(text):
    """[(name, code, number)] with code u f r t h ip bit skip gas rows opt"""
    out = []
    for x in filter(None, (y.strip() for y in text.split(","))):
        if x == "?":
            out.append((None, "opt", 0))
            continue
        name, code = x.split(" ")
        if name == "-":
            out.append((None, "skip", int(code)))
        elif code[0] == "=":
            m, _, s = code[1:].partition(">>")
            out.append((name, "field" if s else "bit", (int(m, 0), int(s or 0))))
        elif code in ("ip", "gas", "rows"):
            out.append((name, code, {"ip": 4, "gas": 4 * len(GAS), "rows": 0}[code]))
        else:
            k, n = re.fullmatch(r"([ufrth])(\d+)", code).groups()
            out.append((name, k, int(n)))
    return out


WIDTH = ("u", "f", "r", "t", "h", "ip", "skip", "gas")


def lengths(text, rows=0):
    """Permitted body lengths: without and with the optional part"""
    n, base = 0, None
    for name, code, w in items(text):
        if code == "opt":
            base = n
        elif code in WIDTH:
            n += w
        elif code == "rows":
            n += 10 * rows
    return [n] if base is None else [base, n]


def field_names(text):
    return [n for n, c, w in items(text) if n and n not in HIDDEN]
