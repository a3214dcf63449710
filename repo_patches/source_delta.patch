From 394aa9b8829e8483de6bc41d9618920ea66450f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 01/45] fix: carry trap states between columns for any number
 of threads

---
 src/cti.cpp | 1445 ++++++++++++++++++++++++++-------------------------
 1 file changed, 723 insertions(+), 722 deletions(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 84931b4..9408ff4 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -1,722 +1,723 @@
-
-#include "cti.hpp"
-
-#include <stdio.h>
-#include <sys/time.h>
-
-#include <valarray>
-#include <iostream>
-
-#include "ccd.hpp"
-#include "roe.hpp"
-#include "trap_managers.hpp"
-#include "traps.hpp"
-#include "util.hpp"
-
-/*
-    Add CTI trails to an image by trapping, releasing, and moving electrons
-    along their independent columns.
-
-    See add_cti() for more detail and e.g. parallel vs serial clocking.
-
-    Parameters
-    ----------
-    image_in : std::valarray<std::valarray<double> >
-        The input array of pixel values, assumed to be in units of electrons.
-
-        The first dimension is the "row" index, the second is the "column"
-        index. Charge is transferred "up" from row N to row 0 along each
-        independent column.
-
-    roe : ROE*
-    ccd : CCD*
-    traps_ic : std::valarray<TrapInstantCapture>*
-    traps_sc : std::valarray<TrapSlowCapture>*
-    traps_ic_co : std::valarray<TrapInstantCaptureContinuum>*
-    traps_sc_co : std::valarray<TrapSlowCaptureContinuum>*
-    express : int (opt.)
-    row_offset : int (opt.)
-        See add_cti()'s docstring. Same as the corresponding parallel_*
-        parameters.
-
-    row_start, row_stop : int (opt.)
-        The subset of row pixels to model, to save time when only a specific
-        region of the image is of interest. Defaults to 0, n_rows for the full
-        image.
-
-        For trap pumping, it is currently assumed that only a single pixel is
-        active and contains traps, so row_stop must be row_start + 1. See
-        ROETrapPumping for more detail.
-
-    column_start, column_stop : int (opt.)
-        The subset of column pixels to model, to save time when only a specific
-        region of the image is of interest. Defaults to 0, n_columns for the
-        full image.
-
-    print_inputs : int (opt.)
-        Whether or not to print the model inputs. Defaults to True if
-        verbosity >= 1.
-
-    Returns
-    -------
-    image : std::valarray<std::valarray<double> >
-        The output array of pixel values.
-*/
-std::valarray<std::valarray<double> > clock_charge_in_one_direction(
-    std::valarray<std::valarray<double> >& image_in, ROE* roe, CCD* ccd,
-    std::valarray<TrapInstantCapture>* traps_ic,
-    std::valarray<TrapSlowCapture>* traps_sc,
-    std::valarray<TrapInstantCaptureContinuum>* traps_ic_co,
-    std::valarray<TrapSlowCaptureContinuum>* traps_sc_co, 
-    int express, int row_offset,
-    int row_start, int row_stop, 
-    int column_start, int column_stop, 
-    int time_start, int time_stop, 
-    double prune_n_electrons, int prune_frequency,
-    int allow_negative_pixels, int print_inputs) {
-    
-    // Initialise the output image as a copy of the input image
-    std::valarray<std::valarray<double> > image = image_in;
-
-    // Image shape
-    unsigned int n_rows = image.size();
-    unsigned int n_columns = image[0].size();
-
-    // Defaults
-    if (row_stop == -1) row_stop = n_rows;
-    if (column_stop == -1) column_stop = n_columns;
-
-    // Number of active rows and columns
-    unsigned int n_active_rows = row_stop - row_start;
-    unsigned int n_active_columns = column_stop - column_start;
-    unsigned int max_n_transfers = n_active_rows + row_offset;
-    print_v(
-        1, "%d column(s) [%d to %d], %d row(s) [%d to %d] \n", n_active_columns,
-        column_start, column_stop, n_active_rows, row_start, row_stop);
-
-    // Checks for non-standard modes
-    if ((roe->type == roe_type_trap_pumping) && (n_active_rows != 1))
-        error(
-            "TrapSlowCapture pumping currently requires the number of active rows (%d) "
-            "to be 1",
-            n_active_rows);
-
-    // Set up the readout electronics and express arrays
-    roe->set_clock_sequence();
-    roe->set_express_matrix_from_rows_and_express(n_rows, express, row_offset);
-    roe->set_store_trap_states_matrix();
-    if (ccd->n_phases != roe->n_phases)
-        error(
-            "Number of CCD phases (%d) and ROE phases (%d) don't match.", ccd->n_phases,
-            roe->n_phases);
-    if (!roe->empty_traps_between_columns) {
-        // Account for the complete set of capture/release events that might
-        // need to be tracked if the traps are never reset
-        max_n_transfers *= n_columns;
-    }
-
-    // Set empty arrays for nullptr trap lists
-    std::valarray<TrapInstantCapture> no_traps_ic = {};
-    if (traps_ic == nullptr) {
-        traps_ic = &no_traps_ic;
-    }
-    std::valarray<TrapSlowCapture> no_traps_sc = {};
-    if (traps_sc == nullptr) {
-        traps_sc = &no_traps_sc;
-    }
-    std::valarray<TrapInstantCaptureContinuum> no_continuum_traps = {};
-    if (traps_ic_co == nullptr) {
-        traps_ic_co = &no_continuum_traps;
-    }
-    std::valarray<TrapSlowCaptureContinuum> no_traps_sc_co = {};
-    if (traps_sc_co == nullptr) {
-        traps_sc_co = &no_traps_sc_co;
-    }
-
-    // Set up the trap managers
-    TrapManagerManager trap_manager_manager(
-        *traps_ic, *traps_sc, *traps_ic_co, *traps_sc_co, max_n_transfers, *ccd,
-        roe->dwell_times);
-
-    unsigned int column_index;
-    unsigned int row_index;
-    unsigned int row_read;
-    unsigned int row_write;
-    double n_free_electrons;
-    double n_electrons_released_and_captured;
-    double express_multiplier;
-    ROEStepPhase* roe_step_phase;
-
-    // Print model inputs
-    //if (print_inputs == -1) print_inputs = verbosity >= 1;
-    if (print_inputs > 0) {
-        print_v(2, "\n");
-        printf("  express = %d \n", express);
-        if (row_offset != 0) printf("  row_offset = %d \n", row_offset);
-
-        printf("  ROE type = %d, n_steps = %d \n", roe->type, roe->n_steps);
-        printf("    dwell_times = ");
-        print_array(roe->dwell_times);
-        printf(
-            "    empty_traps_between_columns = %d \n",
-            roe->empty_traps_between_columns);
-        printf(
-            "    empty_traps_for_first_transfers = %d \n",
-            roe->empty_traps_for_first_transfers);
-        if (roe->n_steps != 1)
-            printf(
-                "    force_release_away_from_readout = %d \n",
-                roe->force_release_away_from_readout);
-        if (roe->use_integer_express_matrix)
-            printf(
-                "    use_integer_express_matrix = %d \n",
-                roe->use_integer_express_matrix);
-        if (roe->type == roe_type_trap_pumping)
-            printf("    n_pumps = %d \n", roe->n_pumps);
-
-        printf("  CCD n_phases = %d \n", ccd->n_phases);
-        if (ccd->n_phases != 1) {
-            printf("    fraction_of_traps_per_phase = ");
-            print_array(ccd->fraction_of_traps_per_phase);
-        }
-        for (int i_phase = 0; i_phase < ccd->n_phases; i_phase++) {
-            printf(
-                "    full_well_depth = %g, well_notch_depth = %g, well_fill_power = %g "
-                "\n",
-                ccd->phases[i_phase].full_well_depth,
-                ccd->phases[i_phase].well_notch_depth,
-                ccd->phases[i_phase].well_fill_power);
-        }
-
-        if (trap_manager_manager.n_traps_ic != 0) {
-            printf(
-                "  Instant-capture traps n = %d \n", trap_manager_manager.n_traps_ic);
-            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_ic; i_trap++) {
-                printf(
-                    "    density = %g, release_timescale = %g \n",
-                    trap_manager_manager.trap_managers_ic[0].traps[i_trap].density,
-                    trap_manager_manager.trap_managers_ic[0]
-                        .traps[i_trap]
-                        .release_timescale);
-                if (trap_manager_manager.trap_managers_ic[0]
-                        .traps[i_trap]
-                        .fractional_volume_full_exposed != 0.0)
-                    printf(
-                        "      fractional_volume_none_exposed = %g, "
-                        "fractional_volume_full_exposed = %g \n",
-                        trap_manager_manager.trap_managers_ic[0]
-                            .traps[i_trap]
-                            .fractional_volume_none_exposed,
-                        trap_manager_manager.trap_managers_ic[0]
-                            .traps[i_trap]
-                            .fractional_volume_full_exposed);
-            }
-        }
-        if (trap_manager_manager.n_traps_sc != 0) {
-            printf("  Slow-capture traps n = %d \n", trap_manager_manager.n_traps_sc);
-            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_sc; i_trap++) {
-                printf(
-                    "    density = %g, release_timescale = %g, capture_timescale = %g "
-                    "\n",
-                    trap_manager_manager.trap_managers_sc[0].traps[i_trap].density,
-                    trap_manager_manager.trap_managers_sc[0]
-                        .traps[i_trap]
-                        .release_timescale,
-                    trap_manager_manager.trap_managers_sc[0]
-                        .traps[i_trap]
-                        .capture_timescale);
-            }
-        }
-        if (trap_manager_manager.n_traps_ic_co != 0) {
-            printf("  Continuum traps n = %d \n", trap_manager_manager.n_traps_ic_co);
-            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_ic_co;
-                 i_trap++) {
-                printf(
-                    "    density = %g, release_timescale = %g, release_timescale_sigma "
-                    "= %g "
-                    "\n",
-                    trap_manager_manager.trap_managers_ic_co[0].traps[i_trap].density,
-                    trap_manager_manager.trap_managers_ic_co[0]
-                        .traps[i_trap]
-                        .release_timescale,
-                    trap_manager_manager.trap_managers_ic_co[0]
-                        .traps[i_trap]
-                        .release_timescale_sigma);
-            }
-        }
-        if (trap_manager_manager.n_traps_sc_co != 0) {
-            printf(
-                "  Slow-capture continuum traps n = %d \n",
-                trap_manager_manager.n_traps_sc_co);
-            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_sc_co;
-                 i_trap++) {
-                printf(
-                    "    density = %g, release_timescale = %g, release_timescale_sigma "
-                    "= %g, "
-                    "capture_timescale = %g \n",
-                    trap_manager_manager.trap_managers_sc_co[0].traps[i_trap].density,
-                    trap_manager_manager.trap_managers_sc_co[0]
-                        .traps[i_trap]
-                        .release_timescale,
-                    trap_manager_manager.trap_managers_sc_co[0]
-                        .traps[i_trap]
-                        .release_timescale_sigma,
-                    trap_manager_manager.trap_managers_sc_co[0]
-                        .traps[i_trap]
-                        .capture_timescale);
-            }
-        }
-        print_v(2, "\n");
-    }
-
-    // Measure wall-clock time taken for the primary loop
-    struct timeval wall_time_start;
-    struct timeval wall_time_end;
-    double wall_time_elapsed;
-    gettimeofday(&wall_time_start, nullptr);
-
-
-
-/*    
-    // Print express matrix
-    print_array_2D(roe->express_matrix, roe->n_express_passes);
-    for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
-        column_index = column_start + i_column;
-        print_v(0, "express_multiplier \n", express_multiplier);
-        for (unsigned int express_index = 0; express_index < roe->n_express_passes;
-             express_index++) {
-            // Each pixel
-            for (unsigned int i_row = 0; i_row < n_active_rows; i_row++) {
-                row_index = row_start + i_row;
-                express_multiplier =
-                    roe->express_matrix[express_index * n_rows + row_index];
-                print_v(0, "%g", express_multiplier);
-
-                if (roe->store_trap_states_matrix[express_index * n_rows + row_index]) {
-                    trap_manager_manager.store_trap_states();
-
-                    print_v(0, "*");
-                }
-            }
-            print_v(0, "\n");
-        }
-    }    
-*/
-
-    // ========
-    // Clock each column of pixels through the column of traps
-    // ========
-    // Print express matrix
-    //print_array_2D(roe->express_matrix, n_active_rows);
-    //print_array_2D((int)roe->store_trap_states_matrix, n_active_rows);
-    // Loop over:
-    //   Columns > Express passes > Rows > Clock-sequence steps > Pixel phases
-    #pragma omp parallel for private(column_index, row_index, row_read, row_write, n_free_electrons, \
-				     n_electrons_released_and_captured, express_multiplier, roe_step_phase) \
-                             firstprivate(trap_manager_manager)
-    for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
-        column_index = column_start + i_column;
-
-        print_v(
-            2, "# # # #  i_column, column_index  %d,  %d \n", i_column, column_index);
-
-        // Monitor the traps for every transfer (express=n_rows), or just one
-        // (express=1) or a few (express=a few) then replicate their effect
-        for (unsigned int express_index = 0; express_index < roe->n_express_passes;
-             express_index++) {
-
-            print_v(2, "# # #  express_index  %d \n", express_index);
-
-            // Restore the trap occupancy levels, either to empty or to a saved
-            // state from a previous express pass
-            trap_manager_manager.restore_trap_states();
-
-            // Each pixel
-            for (unsigned int i_row = 0; i_row < n_active_rows; i_row++) {
-                row_index = row_start + i_row;
-
-                print_v(2, "# #  i_row, row_index  %d,  %d \n", i_row, row_index);
-
-                express_multiplier =
-                    roe->express_matrix[express_index * n_rows + row_index];
-                if (express_multiplier == 0) continue;
-
-                print_v(2, "express_multiplier  %g \n", express_multiplier);
-
-                // Each step in the clock sequence
-                for (unsigned int i_step = 0; i_step < roe->n_steps; i_step++) {
-
-                    // Each phase in the pixel
-                    for (unsigned int i_phase = 0; i_phase < ccd->n_phases; i_phase++) {
-
-                        if ((roe->n_steps > 1) || (ccd->n_phases > 1))
-                            print_v(
-                                2, "#  i_step, i_phase  %d,  %d \n", i_step, i_phase);
-
-                        // State of the ROE in this step and phase of the sequence
-                        roe_step_phase = &roe->clock_sequence[i_step][i_phase];
-
-                        // Get the initial charge from the relevant pixel(s)
-                        n_free_electrons = 0;
-                        for (int i = 0; i < roe_step_phase->n_capture_pixels; i++) {
-                            row_read = row_index +
-                                       roe_step_phase->capture_from_which_pixels[i];
-
-                            n_free_electrons += image[row_read][column_index];
-                        }
-
-                        print_v(2, "row_read  %d \n", row_read);
-                        print_v(2, "n_free_electrons  %g \n", n_free_electrons);
- 
-                        // Release and capture electrons with the traps in this
-                        // pixel/phase, for each type of traps
-                        n_electrons_released_and_captured = 0;
-                        if (trap_manager_manager.n_traps_ic > 0)
-                            n_electrons_released_and_captured +=
-                                trap_manager_manager.trap_managers_ic[i_phase]
-                                    .n_electrons_released_and_captured(
-                                        n_free_electrons +
-                                        n_electrons_released_and_captured);
-                        if (trap_manager_manager.n_traps_sc > 0)
-                            n_electrons_released_and_captured +=
-                                trap_manager_manager.trap_managers_sc[i_phase]
-                                    .n_electrons_released_and_captured(
-                                        n_free_electrons +
-                                        n_electrons_released_and_captured);
-                        if (trap_manager_manager.n_traps_ic_co > 0)
-                            n_electrons_released_and_captured +=
-                                trap_manager_manager.trap_managers_ic_co[i_phase]
-                                    .n_electrons_released_and_captured(
-                                        n_free_electrons +
-                                        n_electrons_released_and_captured);
-                        if (trap_manager_manager.n_traps_sc_co > 0)
-                            n_electrons_released_and_captured +=
-                                trap_manager_manager.trap_managers_sc_co[i_phase]
-                                    .n_electrons_released_and_captured(
-                                        n_free_electrons +
-                                        n_electrons_released_and_captured);
-                      
-                        print_v(
-                            2, "n_electrons_released_and_captured  %g \n",
-                            n_electrons_released_and_captured);
-
-                        print_v(
-                           2, "n_trapped_electrons_from_watermarks  %g \n",
-                            trap_manager_manager.trap_managers_ic[i_phase].n_trapped_electrons_from_watermarks(trap_manager_manager.trap_managers_ic[i_phase].watermark_volumes,trap_manager_manager.trap_managers_ic[i_phase].watermark_fills));
-
-                        print_v(2, "n_free_electrons  %g \n", n_free_electrons);
-
-
-                        // Return the charge to the relevant pixel(s)
-                        for (int i = 0; i < roe_step_phase->n_release_pixels; i++) {
-                            row_write =
-                                row_index + roe_step_phase->release_to_which_pixels[i];
-
-                            image[row_write][column_index] +=
-                                n_electrons_released_and_captured * express_multiplier *
-                                roe_step_phase->release_fraction_to_pixels[i];
-
-                            // Make sure image counts don't go negative, which
-                            // could happen with a too-large express multiplier
-                            if (!allow_negative_pixels) {
-                                if (image[row_write][column_index] < 0.0)
-                                    image[row_write][column_index] = 0.0;
-                            }
-                            
-                            print_v(2, "row_write  %d \n", row_write);
-                            print_v(
-                                2, "image[%d][%d]  %g \n", row_write, column_index,
-                                image[row_write][column_index]);
-                        }
-                    }
-                }
-
-                // Absorb really small watermarks  into others, for speed
-                if (prune_frequency > 0) {
-                    if (((i_row + 1) % prune_frequency) == 0) {
-                        trap_manager_manager.prune_watermarks(prune_n_electrons);
-                    }
-                }
-                
-                // Store the trap states if needed for the next express pass
-                if (roe->store_trap_states_matrix[express_index * n_rows + row_index]) {
-                    print_v(2, "store_trap_states \n");
-                    trap_manager_manager.store_trap_states();
-                }
-            }
-        }
-
-        // Reset the trap states to empty and/or store them for the next column
-        if (roe->empty_traps_between_columns) trap_manager_manager.reset_trap_states();
-        trap_manager_manager.store_trap_states();
-    }
-
-    // Time taken
-    gettimeofday(&wall_time_end, nullptr);
-    wall_time_elapsed = gettimelapsed(wall_time_start, wall_time_end);
-    print_v(1, "Wall-clock time elapsed: %.4g s \n", wall_time_elapsed);
-
-    return image;
-}
-
-/*
-    Add CTI trails to an image by trapping, releasing, and moving electrons
-    along their independent columns, for parallel and/or serial clocking.
-
-    Parameters
-    ----------
-    image_in : std::valarray<std::valarray<double> >
-        The input array of pixel values, assumed to be in units of electrons.
-
-        The first dimension is the "row" index, the second is the "column"
-        index. By default (for parallel clocking), charge is transfered "up"
-        from row N to row 0 along each independent column. i.e. the readout
-        register is above row 0. For serial clocking, the image is rotated
-        before modelling, such that charge moves from column M to column 0.
-
-        e.g.
-        Initial image with one bright pixel in the first three columns:
-            {{  0.0,     0.0,     0.0,     0.0  },
-             {  200.0,   0.0,     0.0,     0.0  },
-             {  0.0,     200.0,   0.0,     0.0  },
-             {  0.0,     0.0,     200.0,   0.0  },
-             {  0.0,     0.0,     0.0,     0.0  },
-             {  0.0,     0.0,     0.0,     0.0  }}
-        Image with parallel CTI trails:
-            {{  0.0,     0.0,     0.0,     0.0  },
-             {  196.0,   0.0,     0.0,     0.0  },
-             {  3.0,     194.1,   0.0,     0.0  },
-             {  2.0,     3.9,     192.1,   0.0  },
-             {  1.3,     2.5,     4.8,     0.0  },
-             {  0.8,     1.5,     2.9,     0.0  }}
-        Final image with parallel and serial CTI trails:
-            {{  0.0,     0.0,     0.0,     0.0  },
-             {  194.1,   1.9,     1.5,     0.9  },
-             {  2.9,     190.3,   2.9,     1.9  },
-             {  1.9,     3.8,     186.5,   3.7  },
-             {  1.2,     2.4,     4.7,     0.1  },
-             {  0.7,     1.4,     2.8,     0.06 }}
-
-    parallel_roe : ROE* (opt.)
-        The object describing the clocking read-out electronics, for parallel
-        clocking. Default nullptr to not do parallel clocking.
-
-    parallel_ccd : CCD* (opt.)
-        The object describing the CCD volume, for parallel clocking.
-
-    parallel_traps_ic : std::valarray<TrapInstantCapture>* (opt.)
-    parallel_traps_sc : std::valarray<TrapSlowCapture>* (opt.)
-    parallel_traps_ic_co : std::valarray<TrapInstantCaptureContinuum>* (opt.)
-    parallel_traps_sc_co : std::valarray<TrapSlowCaptureContinuum>* (opt.)
-        The arrays of trap species objects, one for each type (which can be
-        empty, or nullptr), for parallel clocking.
-
-    parallel_express : int (opt.)
-       The number of times the transfers are computed, determining the
-       balance between accuracy (high values) and speed (low values), for
-       parallel clocking (Massey et al. 2014, section 2.1.5).
-           n_rows  (slower, accurate) Compute every pixel-to-pixel
-                   transfer. The default, 0, is an alias for n_rows.
-           k       Recompute on k occasions the effect of each transfer.
-                   After a few transfers (and e.g. eroded leading edges),
-                   the incremental effect of subsequent transfers can change.
-           1       (faster, approximate) Compute the effect of each
-                   transfer only once.
-
-    parallel_offset : int (>= 0) (opt.)
-        The number of (e.g. prescan) pixels separating the supplied image from
-        the readout register. i.e. Treat the input image as a sub-image that is
-        offset by this number of pixels from readout, increasing the number of
-        pixel-to-pixel transfers. Defaults to 0.
-
-    parallel_window_start, parallel_window_stop : int (opt.)
-        Calculate only the effect on this subset of pixels, to save time when
-        only a specific region of the image is of interest. Defaults to 0,
-        n_rows for the full image.
-
-        Note that, because of edge effects, the range should be started several
-        pixels before the actual region of interest.
-
-    serial_* : * (opt.)
-        The same as the parallel_* objects described above but for serial
-        clocking instead. Default nullptr to not do serial clocking.
-        
-    allow_negative_pixels : bool (opt.)
-        Allows pixel values to go below zero (or the lowest in the input image,
-        whichever is lower). This ensures absence of bias. However, if you know
-        the image must be positive definite, forcing allow_negative_pixels=false
-        will catch numerical errors during CTI addition, and can speed up the
-        iteration during CTI removal.
-
-    iteration : int (opt.)
-        The interation when being called by remove_cti(), default 0 otherwise.
-        Only used to control printing.
-
-    Returns
-    -------
-    image : std::valarray<std::valarray<double> >
-        The output array of pixel values with CTI added.
-*/
-std::valarray<std::valarray<double> > add_cti(
-    std::valarray<std::valarray<double> >& image_in,
-    // Parallel
-    ROE* parallel_roe, CCD* parallel_ccd,
-    std::valarray<TrapInstantCapture>* parallel_traps_ic,
-    std::valarray<TrapSlowCapture>* parallel_traps_sc,
-    std::valarray<TrapInstantCaptureContinuum>* parallel_traps_ic_co,
-    std::valarray<TrapSlowCaptureContinuum>* parallel_traps_sc_co, 
-    int parallel_express, int parallel_offset, 
-    int parallel_window_start, int parallel_window_stop,
-    int parallel_time_start, int parallel_time_stop,
-    double parallel_prune_n_electrons, int parallel_prune_frequency,
-    // Serial
-    ROE* serial_roe, CCD* serial_ccd,
-    std::valarray<TrapInstantCapture>* serial_traps_ic,
-    std::valarray<TrapSlowCapture>* serial_traps_sc,
-    std::valarray<TrapInstantCaptureContinuum>* serial_traps_ic_co,
-    std::valarray<TrapSlowCaptureContinuum>* serial_traps_sc_co, 
-    int serial_express, int serial_offset, 
-    int serial_window_start, int serial_window_stop, 
-    int serial_time_start, int serial_time_stop,
-    double serial_prune_n_electrons, int serial_prune_frequency,
-    // Combined
-    int allow_negative_pixels, 
-    // Output
-    int verbosity, int iteration) {
-    
- 
-    // Print unless being called by remove_cti()
-    if (!iteration) print_version();
-    
-    // Don't print model inputs every iteration
-    int print_inputs = (iteration > 1) ? 0 : verbosity >= 1;
-
-    // Initialise the output image as a copy of the input image
-    std::valarray<std::valarray<double> > image = image_in;
-
-    // Parallel clocking along columns, transfer charge towards row 0
-    if (parallel_traps_ic || parallel_traps_sc || parallel_traps_ic_co ||
-        parallel_traps_sc_co) {
-        print_v(1, "Parallel: ");
-        image = clock_charge_in_one_direction(
-            image, parallel_roe, parallel_ccd, parallel_traps_ic, parallel_traps_sc,
-            parallel_traps_ic_co, parallel_traps_sc_co, 
-            parallel_express, parallel_offset, 
-            parallel_window_start, parallel_window_stop,
-            serial_window_start, serial_window_stop, 
-            parallel_time_start, parallel_time_stop,
-            parallel_prune_n_electrons, parallel_prune_frequency,
-            allow_negative_pixels, print_inputs);
-    }
-
-    // Serial clocking along rows, transfer charge towards column 0
-    if (serial_traps_ic || serial_traps_sc || serial_traps_ic_co || 
-        serial_traps_sc_co) {
-
-        print_v(1, "Serial: ");
-        image = transpose(image);
-        image = clock_charge_in_one_direction(
-            image, serial_roe, serial_ccd, serial_traps_ic, serial_traps_sc,
-            serial_traps_ic_co, serial_traps_sc_co, 
-            serial_express, serial_offset,
-            serial_window_start, serial_window_stop, 
-            parallel_window_start, parallel_window_stop, 
-            serial_time_start, serial_time_stop,
-            serial_prune_n_electrons, serial_prune_frequency,
-            allow_negative_pixels, print_inputs);
-
-        image = transpose(image);
-    }
-
-    return image;
-}
-
-/*
-    Remove CTI trails from an image by first modelling the addition of CTI.
-
-    See add_cti()'s documentation for the forward modelling. This function
-    iteratively models the addition of more CTI trails to the input image to
-    then extract the corrected image without the original trails.
-
-    Parameters
-    ----------
-    All parameters are identical to those of add_cti() as described in its
-    documentation, with the exception of:
-
-    n_iterations : int
-        The number of times CTI-adding clocking is run to perform the correction
-        via forward modelling. More iterations provide better results at the
-        cost of longer runtime. In practice, two or three iterations are often
-        sufficient.
-
-    Returns
-    -------
-    image : std::valarray<std::valarray<double> >
-        The output array of pixel values with CTI removed.
-*/
-std::valarray<std::valarray<double> > remove_cti(
-    std::valarray<std::valarray<double> >& image_in, 
-    int n_iterations,
-    // Parallel
-    ROE* parallel_roe, CCD* parallel_ccd,
-    std::valarray<TrapInstantCapture>* parallel_traps_ic,
-    std::valarray<TrapSlowCapture>* parallel_traps_sc,
-    std::valarray<TrapInstantCaptureContinuum>* parallel_traps_ic_co,
-    std::valarray<TrapSlowCaptureContinuum>* parallel_traps_sc_co, 
-    int parallel_express, int parallel_offset, 
-    int parallel_window_start, int parallel_window_stop,
-    int parallel_time_start, int parallel_time_stop,
-    double parallel_prune_n_electrons, int parallel_prune_frequency,
-    // Serial
-    ROE* serial_roe, CCD* serial_ccd,
-    std::valarray<TrapInstantCapture>* serial_traps_ic,
-    std::valarray<TrapSlowCapture>* serial_traps_sc,
-    std::valarray<TrapInstantCaptureContinuum>* serial_traps_ic_co,
-    std::valarray<TrapSlowCaptureContinuum>* serial_traps_sc_co, 
-    int serial_express, int serial_offset, 
-    int serial_window_start, int serial_window_stop,
-    int serial_time_start, int serial_time_stop,
-    double serial_prune_n_electrons, int serial_prune_frequency,
-    // Combined
-    int allow_negative_pixels) {
-
-    print_version();
-
-    // Initialise the output image as a copy of the input image
-    std::valarray<std::valarray<double> > image_remove_cti = image_in;
-    std::valarray<std::valarray<double> > image_add_cti;
-
-    int n_rows = image_in.size();
-
-    // Estimate the image with removed CTI more accurately each iteration
-    for (int iteration = 1; iteration <= n_iterations; iteration++) {
-        print_v(1, "Iter %d: ", iteration);
-
-        // Model the effect of adding CTI trails
-        image_add_cti = add_cti(
-            image_remove_cti, parallel_roe, parallel_ccd, parallel_traps_ic,
-            parallel_traps_sc, parallel_traps_ic_co, parallel_traps_sc_co,
-            parallel_express, parallel_offset, 
-            parallel_window_start, parallel_window_stop, 
-            parallel_time_start, parallel_time_stop,
-            parallel_prune_n_electrons, parallel_prune_frequency,
-            serial_roe, serial_ccd, serial_traps_ic,
-            serial_traps_sc, serial_traps_ic_co, serial_traps_sc_co, serial_express,
-            serial_offset, serial_window_start, serial_window_stop, 
-            serial_time_start, serial_time_stop, 
-            serial_prune_n_electrons, serial_prune_frequency,
-            allow_negative_pixels, 0, iteration);
-
-        // Improve the estimate of the image with CTI trails removed
-        image_remove_cti += image_in - image_add_cti;
-
-        // Prevent negative image values
-        if (!allow_negative_pixels) {
-            for (int row_index = 0; row_index < n_rows; row_index++) {
-                image_remove_cti[row_index][image_remove_cti[row_index] < 0.0] = 0.0;
-            }
-        }
-    }
-
-    return image_remove_cti;
-}
+
+#include "cti.hpp"
+
+#include <stdio.h>
+#include <sys/time.h>
+
+#include <valarray>
+#include <iostream>
+
+#include "ccd.hpp"
+#include "roe.hpp"
+#include "trap_managers.hpp"
+#include "traps.hpp"
+#include "util.hpp"
+
+/*
+    Add CTI trails to an image by trapping, releasing, and moving electrons
+    along their independent columns.
+
+    See add_cti() for more detail and e.g. parallel vs serial clocking.
+
+    Parameters
+    ----------
+    image_in : std::valarray<std::valarray<double> >
+        The input array of pixel values, assumed to be in units of electrons.
+
+        The first dimension is the "row" index, the second is the "column"
+        index. Charge is transferred "up" from row N to row 0 along each
+        independent column.
+
+    roe : ROE*
+    ccd : CCD*
+    traps_ic : std::valarray<TrapInstantCapture>*
+    traps_sc : std::valarray<TrapSlowCapture>*
+    traps_ic_co : std::valarray<TrapInstantCaptureContinuum>*
+    traps_sc_co : std::valarray<TrapSlowCaptureContinuum>*
+    express : int (opt.)
+    row_offset : int (opt.)
+        See add_cti()'s docstring. Same as the corresponding parallel_*
+        parameters.
+
+    row_start, row_stop : int (opt.)
+        The subset of row pixels to model, to save time when only a specific
+        region of the image is of interest. Defaults to 0, n_rows for the full
+        image.
+
+        For trap pumping, it is currently assumed that only a single pixel is
+        active and contains traps, so row_stop must be row_start + 1. See
+        ROETrapPumping for more detail.
+
+    column_start, column_stop : int (opt.)
+        The subset of column pixels to model, to save time when only a specific
+        region of the image is of interest. Defaults to 0, n_columns for the
+        full image.
+
+    print_inputs : int (opt.)
+        Whether or not to print the model inputs. Defaults to True if
+        verbosity >= 1.
+
+    Returns
+    -------
+    image : std::valarray<std::valarray<double> >
+        The output array of pixel values.
+*/
+std::valarray<std::valarray<double> > clock_charge_in_one_direction(
+    std::valarray<std::valarray<double> >& image_in, ROE* roe, CCD* ccd,
+    std::valarray<TrapInstantCapture>* traps_ic,
+    std::valarray<TrapSlowCapture>* traps_sc,
+    std::valarray<TrapInstantCaptureContinuum>* traps_ic_co,
+    std::valarray<TrapSlowCaptureContinuum>* traps_sc_co, 
+    int express, int row_offset,
+    int row_start, int row_stop, 
+    int column_start, int column_stop, 
+    int time_start, int time_stop, 
+    double prune_n_electrons, int prune_frequency,
+    int allow_negative_pixels, int print_inputs) {
+    
+    // Initialise the output image as a copy of the input image
+    std::valarray<std::valarray<double> > image = image_in;
+
+    // Image shape
+    unsigned int n_rows = image.size();
+    unsigned int n_columns = image[0].size();
+
+    // Defaults
+    if (row_stop == -1) row_stop = n_rows;
+    if (column_stop == -1) column_stop = n_columns;
+
+    // Number of active rows and columns
+    unsigned int n_active_rows = row_stop - row_start;
+    unsigned int n_active_columns = column_stop - column_start;
+    unsigned int max_n_transfers = n_active_rows + row_offset;
+    print_v(
+        1, "%d column(s) [%d to %d], %d row(s) [%d to %d] \n", n_active_columns,
+        column_start, column_stop, n_active_rows, row_start, row_stop);
+
+    // Checks for non-standard modes
+    if ((roe->type == roe_type_trap_pumping) && (n_active_rows != 1))
+        error(
+            "TrapSlowCapture pumping currently requires the number of active rows (%d) "
+            "to be 1",
+            n_active_rows);
+
+    // Set up the readout electronics and express arrays
+    roe->set_clock_sequence();
+    roe->set_express_matrix_from_rows_and_express(n_rows, express, row_offset);
+    roe->set_store_trap_states_matrix();
+    if (ccd->n_phases != roe->n_phases)
+        error(
+            "Number of CCD phases (%d) and ROE phases (%d) don't match.", ccd->n_phases,
+            roe->n_phases);
+    if (!roe->empty_traps_between_columns) {
+        // Account for the complete set of capture/release events that might
+        // need to be tracked if the traps are never reset
+        max_n_transfers *= n_columns;
+    }
+
+    // Set empty arrays for nullptr trap lists
+    std::valarray<TrapInstantCapture> no_traps_ic = {};
+    if (traps_ic == nullptr) {
+        traps_ic = &no_traps_ic;
+    }
+    std::valarray<TrapSlowCapture> no_traps_sc = {};
+    if (traps_sc == nullptr) {
+        traps_sc = &no_traps_sc;
+    }
+    std::valarray<TrapInstantCaptureContinuum> no_continuum_traps = {};
+    if (traps_ic_co == nullptr) {
+        traps_ic_co = &no_continuum_traps;
+    }
+    std::valarray<TrapSlowCaptureContinuum> no_traps_sc_co = {};
+    if (traps_sc_co == nullptr) {
+        traps_sc_co = &no_traps_sc_co;
+    }
+
+    // Set up the trap managers
+    TrapManagerManager trap_manager_manager(
+        *traps_ic, *traps_sc, *traps_ic_co, *traps_sc_co, max_n_transfers, *ccd,
+        roe->dwell_times);
+
+    unsigned int column_index;
+    unsigned int row_index;
+    unsigned int row_read;
+    unsigned int row_write;
+    double n_free_electrons;
+    double n_electrons_released_and_captured;
+    double express_multiplier;
+    ROEStepPhase* roe_step_phase;
+
+    // Print model inputs
+    //if (print_inputs == -1) print_inputs = verbosity >= 1;
+    if (print_inputs > 0) {
+        print_v(2, "\n");
+        printf("  express = %d \n", express);
+        if (row_offset != 0) printf("  row_offset = %d \n", row_offset);
+
+        printf("  ROE type = %d, n_steps = %d \n", roe->type, roe->n_steps);
+        printf("    dwell_times = ");
+        print_array(roe->dwell_times);
+        printf(
+            "    empty_traps_between_columns = %d \n",
+            roe->empty_traps_between_columns);
+        printf(
+            "    empty_traps_for_first_transfers = %d \n",
+            roe->empty_traps_for_first_transfers);
+        if (roe->n_steps != 1)
+            printf(
+                "    force_release_away_from_readout = %d \n",
+                roe->force_release_away_from_readout);
+        if (roe->use_integer_express_matrix)
+            printf(
+                "    use_integer_express_matrix = %d \n",
+                roe->use_integer_express_matrix);
+        if (roe->type == roe_type_trap_pumping)
+            printf("    n_pumps = %d \n", roe->n_pumps);
+
+        printf("  CCD n_phases = %d \n", ccd->n_phases);
+        if (ccd->n_phases != 1) {
+            printf("    fraction_of_traps_per_phase = ");
+            print_array(ccd->fraction_of_traps_per_phase);
+        }
+        for (int i_phase = 0; i_phase < ccd->n_phases; i_phase++) {
+            printf(
+                "    full_well_depth = %g, well_notch_depth = %g, well_fill_power = %g "
+                "\n",
+                ccd->phases[i_phase].full_well_depth,
+                ccd->phases[i_phase].well_notch_depth,
+                ccd->phases[i_phase].well_fill_power);
+        }
+
+        if (trap_manager_manager.n_traps_ic != 0) {
+            printf(
+                "  Instant-capture traps n = %d \n", trap_manager_manager.n_traps_ic);
+            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_ic; i_trap++) {
+                printf(
+                    "    density = %g, release_timescale = %g \n",
+                    trap_manager_manager.trap_managers_ic[0].traps[i_trap].density,
+                    trap_manager_manager.trap_managers_ic[0]
+                        .traps[i_trap]
+                        .release_timescale);
+                if (trap_manager_manager.trap_managers_ic[0]
+                        .traps[i_trap]
+                        .fractional_volume_full_exposed != 0.0)
+                    printf(
+                        "      fractional_volume_none_exposed = %g, "
+                        "fractional_volume_full_exposed = %g \n",
+                        trap_manager_manager.trap_managers_ic[0]
+                            .traps[i_trap]
+                            .fractional_volume_none_exposed,
+                        trap_manager_manager.trap_managers_ic[0]
+                            .traps[i_trap]
+                            .fractional_volume_full_exposed);
+            }
+        }
+        if (trap_manager_manager.n_traps_sc != 0) {
+            printf("  Slow-capture traps n = %d \n", trap_manager_manager.n_traps_sc);
+            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_sc; i_trap++) {
+                printf(
+                    "    density = %g, release_timescale = %g, capture_timescale = %g "
+                    "\n",
+                    trap_manager_manager.trap_managers_sc[0].traps[i_trap].density,
+                    trap_manager_manager.trap_managers_sc[0]
+                        .traps[i_trap]
+                        .release_timescale,
+                    trap_manager_manager.trap_managers_sc[0]
+                        .traps[i_trap]
+                        .capture_timescale);
+            }
+        }
+        if (trap_manager_manager.n_traps_ic_co != 0) {
+            printf("  Continuum traps n = %d \n", trap_manager_manager.n_traps_ic_co);
+            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_ic_co;
+                 i_trap++) {
+                printf(
+                    "    density = %g, release_timescale = %g, release_timescale_sigma "
+                    "= %g "
+                    "\n",
+                    trap_manager_manager.trap_managers_ic_co[0].traps[i_trap].density,
+                    trap_manager_manager.trap_managers_ic_co[0]
+                        .traps[i_trap]
+                        .release_timescale,
+                    trap_manager_manager.trap_managers_ic_co[0]
+                        .traps[i_trap]
+                        .release_timescale_sigma);
+            }
+        }
+        if (trap_manager_manager.n_traps_sc_co != 0) {
+            printf(
+                "  Slow-capture continuum traps n = %d \n",
+                trap_manager_manager.n_traps_sc_co);
+            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_sc_co;
+                 i_trap++) {
+                printf(
+                    "    density = %g, release_timescale = %g, release_timescale_sigma "
+                    "= %g, "
+                    "capture_timescale = %g \n",
+                    trap_manager_manager.trap_managers_sc_co[0].traps[i_trap].density,
+                    trap_manager_manager.trap_managers_sc_co[0]
+                        .traps[i_trap]
+                        .release_timescale,
+                    trap_manager_manager.trap_managers_sc_co[0]
+                        .traps[i_trap]
+                        .release_timescale_sigma,
+                    trap_manager_manager.trap_managers_sc_co[0]
+                        .traps[i_trap]
+                        .capture_timescale);
+            }
+        }
+        print_v(2, "\n");
+    }
+
+    // Measure wall-clock time taken for the primary loop
+    struct timeval wall_time_start;
+    struct timeval wall_time_end;
+    double wall_time_elapsed;
+    gettimeofday(&wall_time_start, nullptr);
+
+
+
+/*    
+    // Print express matrix
+    print_array_2D(roe->express_matrix, roe->n_express_passes);
+    for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
+        column_index = column_start + i_column;
+        print_v(0, "express_multiplier \n", express_multiplier);
+        for (unsigned int express_index = 0; express_index < roe->n_express_passes;
+             express_index++) {
+            // Each pixel
+            for (unsigned int i_row = 0; i_row < n_active_rows; i_row++) {
+                row_index = row_start + i_row;
+                express_multiplier =
+                    roe->express_matrix[express_index * n_rows + row_index];
+                print_v(0, "%g", express_multiplier);
+
+                if (roe->store_trap_states_matrix[express_index * n_rows + row_index]) {
+                    trap_manager_manager.store_trap_states();
+
+                    print_v(0, "*");
+                }
+            }
+            print_v(0, "\n");
+        }
+    }    
+*/
+
+    // ========
+    // Clock each column of pixels through the column of traps
+    // ========
+    // Print express matrix
+    //print_array_2D(roe->express_matrix, n_active_rows);
+    //print_array_2D((int)roe->store_trap_states_matrix, n_active_rows);
+    // Loop over:
+    //   Columns > Express passes > Rows > Clock-sequence steps > Pixel phases
+    #pragma omp parallel for private(column_index, row_index, row_read, row_write, n_free_electrons, \
+				     n_electrons_released_and_captured, express_multiplier, roe_step_phase) \
+                             firstprivate(trap_manager_manager) \
+                             if(roe->empty_traps_between_columns)
+    for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
+        column_index = column_start + i_column;
+
+        print_v(
+            2, "# # # #  i_column, column_index  %d,  %d \n", i_column, column_index);
+
+        // Monitor the traps for every transfer (express=n_rows), or just one
+        // (express=1) or a few (express=a few) then replicate their effect
+        for (unsigned int express_index = 0; express_index < roe->n_express_passes;
+             express_index++) {
+
+            print_v(2, "# # #  express_index  %d \n", express_index);
+
+            // Restore the trap occupancy levels, either to empty or to a saved
+            // state from a previous express pass
+            trap_manager_manager.restore_trap_states();
+
+            // Each pixel
+            for (unsigned int i_row = 0; i_row < n_active_rows; i_row++) {
+                row_index = row_start + i_row;
+
+                print_v(2, "# #  i_row, row_index  %d,  %d \n", i_row, row_index);
+
+                express_multiplier =
+                    roe->express_matrix[express_index * n_rows + row_index];
+                if (express_multiplier == 0) continue;
+
+                print_v(2, "express_multiplier  %g \n", express_multiplier);
+
+                // Each step in the clock sequence
+                for (unsigned int i_step = 0; i_step < roe->n_steps; i_step++) {
+
+                    // Each phase in the pixel
+                    for (unsigned int i_phase = 0; i_phase < ccd->n_phases; i_phase++) {
+
+                        if ((roe->n_steps > 1) || (ccd->n_phases > 1))
+                            print_v(
+                                2, "#  i_step, i_phase  %d,  %d \n", i_step, i_phase);
+
+                        // State of the ROE in this step and phase of the sequence
+                        roe_step_phase = &roe->clock_sequence[i_step][i_phase];
+
+                        // Get the initial charge from the relevant pixel(s)
+                        n_free_electrons = 0;
+                        for (int i = 0; i < roe_step_phase->n_capture_pixels; i++) {
+                            row_read = row_index +
+                                       roe_step_phase->capture_from_which_pixels[i];
+
+                            n_free_electrons += image[row_read][column_index];
+                        }
+
+                        print_v(2, "row_read  %d \n", row_read);
+                        print_v(2, "n_free_electrons  %g \n", n_free_electrons);
+ 
+                        // Release and capture electrons with the traps in this
+                        // pixel/phase, for each type of traps
+                        n_electrons_released_and_captured = 0;
+                        if (trap_manager_manager.n_traps_ic > 0)
+                            n_electrons_released_and_captured +=
+                                trap_manager_manager.trap_managers_ic[i_phase]
+                                    .n_electrons_released_and_captured(
+                                        n_free_electrons +
+                                        n_electrons_released_and_captured);
+                        if (trap_manager_manager.n_traps_sc > 0)
+                            n_electrons_released_and_captured +=
+                                trap_manager_manager.trap_managers_sc[i_phase]
+                                    .n_electrons_released_and_captured(
+                                        n_free_electrons +
+                                        n_electrons_released_and_captured);
+                        if (trap_manager_manager.n_traps_ic_co > 0)
+                            n_electrons_released_and_captured +=
+                                trap_manager_manager.trap_managers_ic_co[i_phase]
+                                    .n_electrons_released_and_captured(
+                                        n_free_electrons +
+                                        n_electrons_released_and_captured);
+                        if (trap_manager_manager.n_traps_sc_co > 0)
+                            n_electrons_released_and_captured +=
+                                trap_manager_manager.trap_managers_sc_co[i_phase]
+                                    .n_electrons_released_and_captured(
+                                        n_free_electrons +
+                                        n_electrons_released_and_captured);
+                      
+                        print_v(
+                            2, "n_electrons_released_and_captured  %g \n",
+                            n_electrons_released_and_captured);
+
+                        print_v(
+                           2, "n_trapped_electrons_from_watermarks  %g \n",
+                            trap_manager_manager.trap_managers_ic[i_phase].n_trapped_electrons_from_watermarks(trap_manager_manager.trap_managers_ic[i_phase].watermark_volumes,trap_manager_manager.trap_managers_ic[i_phase].watermark_fills));
+
+                        print_v(2, "n_free_electrons  %g \n", n_free_electrons);
+
+
+                        // Return the charge to the relevant pixel(s)
+                        for (int i = 0; i < roe_step_phase->n_release_pixels; i++) {
+                            row_write =
+                                row_index + roe_step_phase->release_to_which_pixels[i];
+
+                            image[row_write][column_index] +=
+                                n_electrons_released_and_captured * express_multiplier *
+                                roe_step_phase->release_fraction_to_pixels[i];
+
+                            // Make sure image counts don't go negative, which
+                            // could happen with a too-large express multiplier
+                            if (!allow_negative_pixels) {
+                                if (image[row_write][column_index] < 0.0)
+                                    image[row_write][column_index] = 0.0;
+                            }
+                            
+                            print_v(2, "row_write  %d \n", row_write);
+                            print_v(
+                                2, "image[%d][%d]  %g \n", row_write, column_index,
+                                image[row_write][column_index]);
+                        }
+                    }
+                }
+
+                // Absorb really small watermarks  into others, for speed
+                if (prune_frequency > 0) {
+                    if (((i_row + 1) % prune_frequency) == 0) {
+                        trap_manager_manager.prune_watermarks(prune_n_electrons);
+                    }
+                }
+                
+                // Store the trap states if needed for the next express pass
+                if (roe->store_trap_states_matrix[express_index * n_rows + row_index]) {
+                    print_v(2, "store_trap_states \n");
+                    trap_manager_manager.store_trap_states();
+                }
+            }
+        }
+
+        // Reset the trap states to empty and/or store them for the next column
+        if (roe->empty_traps_between_columns) trap_manager_manager.reset_trap_states();
+        trap_manager_manager.store_trap_states();
+    }
+
+    // Time taken
+    gettimeofday(&wall_time_end, nullptr);
+    wall_time_elapsed = gettimelapsed(wall_time_start, wall_time_end);
+    print_v(1, "Wall-clock time elapsed: %.4g s \n", wall_time_elapsed);
+
+    return image;
+}
+
+/*
+    Add CTI trails to an image by trapping, releasing, and moving electrons
+    along their independent columns, for parallel and/or serial clocking.
+
+    Parameters
+    ----------
+    image_in : std::valarray<std::valarray<double> >
+        The input array of pixel values, assumed to be in units of electrons.
+
+        The first dimension is the "row" index, the second is the "column"
+        index. By default (for parallel clocking), charge is transfered "up"
+        from row N to row 0 along each independent column. i.e. the readout
+        register is above row 0. For serial clocking, the image is rotated
+        before modelling, such that charge moves from column M to column 0.
+
+        e.g.
+        Initial image with one bright pixel in the first three columns:
+            {{  0.0,     0.0,     0.0,     0.0  },
+             {  200.0,   0.0,     0.0,     0.0  },
+             {  0.0,     200.0,   0.0,     0.0  },
+             {  0.0,     0.0,     200.0,   0.0  },
+             {  0.0,     0.0,     0.0,     0.0  },
+             {  0.0,     0.0,     0.0,     0.0  }}
+        Image with parallel CTI trails:
+            {{  0.0,     0.0,     0.0,     0.0  },
+             {  196.0,   0.0,     0.0,     0.0  },
+             {  3.0,     194.1,   0.0,     0.0  },
+             {  2.0,     3.9,     192.1,   0.0  },
+             {  1.3,     2.5,     4.8,     0.0  },
+             {  0.8,     1.5,     2.9,     0.0  }}
+        Final image with parallel and serial CTI trails:
+            {{  0.0,     0.0,     0.0,     0.0  },
+             {  194.1,   1.9,     1.5,     0.9  },
+             {  2.9,     190.3,   2.9,     1.9  },
+             {  1.9,     3.8,     186.5,   3.7  },
+             {  1.2,     2.4,     4.7,     0.1  },
+             {  0.7,     1.4,     2.8,     0.06 }}
+
+    parallel_roe : ROE* (opt.)
+        The object describing the clocking read-out electronics, for parallel
+        clocking. Default nullptr to not do parallel clocking.
+
+    parallel_ccd : CCD* (opt.)
+        The object describing the CCD volume, for parallel clocking.
+
+    parallel_traps_ic : std::valarray<TrapInstantCapture>* (opt.)
+    parallel_traps_sc : std::valarray<TrapSlowCapture>* (opt.)
+    parallel_traps_ic_co : std::valarray<TrapInstantCaptureContinuum>* (opt.)
+    parallel_traps_sc_co : std::valarray<TrapSlowCaptureContinuum>* (opt.)
+        The arrays of trap species objects, one for each type (which can be
+        empty, or nullptr), for parallel clocking.
+
+    parallel_express : int (opt.)
+       The number of times the transfers are computed, determining the
+       balance between accuracy (high values) and speed (low values), for
+       parallel clocking (Massey et al. 2014, section 2.1.5).
+           n_rows  (slower, accurate) Compute every pixel-to-pixel
+                   transfer. The default, 0, is an alias for n_rows.
+           k       Recompute on k occasions the effect of each transfer.
+                   After a few transfers (and e.g. eroded leading edges),
+                   the incremental effect of subsequent transfers can change.
+           1       (faster, approximate) Compute the effect of each
+                   transfer only once.
+
+    parallel_offset : int (>= 0) (opt.)
+        The number of (e.g. prescan) pixels separating the supplied image from
+        the readout register. i.e. Treat the input image as a sub-image that is
+        offset by this number of pixels from readout, increasing the number of
+        pixel-to-pixel transfers. Defaults to 0.
+
+    parallel_window_start, parallel_window_stop : int (opt.)
+        Calculate only the effect on this subset of pixels, to save time when
+        only a specific region of the image is of interest. Defaults to 0,
+        n_rows for the full image.
+
+        Note that, because of edge effects, the range should be started several
+        pixels before the actual region of interest.
+
+    serial_* : * (opt.)
+        The same as the parallel_* objects described above but for serial
+        clocking instead. Default nullptr to not do serial clocking.
+        
+    allow_negative_pixels : bool (opt.)
+        Allows pixel values to go below zero (or the lowest in the input image,
+        whichever is lower). This ensures absence of bias. However, if you know
+        the image must be positive definite, forcing allow_negative_pixels=false
+        will catch numerical errors during CTI addition, and can speed up the
+        iteration during CTI removal.
+
+    iteration : int (opt.)
+        The interation when being called by remove_cti(), default 0 otherwise.
+        Only used to control printing.
+
+    Returns
+    -------
+    image : std::valarray<std::valarray<double> >
+        The output array of pixel values with CTI added.
+*/
+std::valarray<std::valarray<double> > add_cti(
+    std::valarray<std::valarray<double> >& image_in,
+    // Parallel
+    ROE* parallel_roe, CCD* parallel_ccd,
+    std::valarray<TrapInstantCapture>* parallel_traps_ic,
+    std::valarray<TrapSlowCapture>* parallel_traps_sc,
+    std::valarray<TrapInstantCaptureContinuum>* parallel_traps_ic_co,
+    std::valarray<TrapSlowCaptureContinuum>* parallel_traps_sc_co, 
+    int parallel_express, int parallel_offset, 
+    int parallel_window_start, int parallel_window_stop,
+    int parallel_time_start, int parallel_time_stop,
+    double parallel_prune_n_electrons, int parallel_prune_frequency,
+    // Serial
+    ROE* serial_roe, CCD* serial_ccd,
+    std::valarray<TrapInstantCapture>* serial_traps_ic,
+    std::valarray<TrapSlowCapture>* serial_traps_sc,
+    std::valarray<TrapInstantCaptureContinuum>* serial_traps_ic_co,
+    std::valarray<TrapSlowCaptureContinuum>* serial_traps_sc_co, 
+    int serial_express, int serial_offset, 
+    int serial_window_start, int serial_window_stop, 
+    int serial_time_start, int serial_time_stop,
+    double serial_prune_n_electrons, int serial_prune_frequency,
+    // Combined
+    int allow_negative_pixels, 
+    // Output
+    int verbosity, int iteration) {
+    
+ 
+    // Print unless being called by remove_cti()
+    if (!iteration) print_version();
+    
+    // Don't print model inputs every iteration
+    int print_inputs = (iteration > 1) ? 0 : verbosity >= 1;
+
+    // Initialise the output image as a copy of the input image
+    std::valarray<std::valarray<double> > image = image_in;
+
+    // Parallel clocking along columns, transfer charge towards row 0
+    if (parallel_traps_ic || parallel_traps_sc || parallel_traps_ic_co ||
+        parallel_traps_sc_co) {
+        print_v(1, "Parallel: ");
+        image = clock_charge_in_one_direction(
+            image, parallel_roe, parallel_ccd, parallel_traps_ic, parallel_traps_sc,
+            parallel_traps_ic_co, parallel_traps_sc_co, 
+            parallel_express, parallel_offset, 
+            parallel_window_start, parallel_window_stop,
+            serial_window_start, serial_window_stop, 
+            parallel_time_start, parallel_time_stop,
+            parallel_prune_n_electrons, parallel_prune_frequency,
+            allow_negative_pixels, print_inputs);
+    }
+
+    // Serial clocking along rows, transfer charge towards column 0
+    if (serial_traps_ic || serial_traps_sc || serial_traps_ic_co || 
+        serial_traps_sc_co) {
+
+        print_v(1, "Serial: ");
+        image = transpose(image);
+        image = clock_charge_in_one_direction(
+            image, serial_roe, serial_ccd, serial_traps_ic, serial_traps_sc,
+            serial_traps_ic_co, serial_traps_sc_co, 
+            serial_express, serial_offset,
+            serial_window_start, serial_window_stop, 
+            parallel_window_start, parallel_window_stop, 
+            serial_time_start, serial_time_stop,
+            serial_prune_n_electrons, serial_prune_frequency,
+            allow_negative_pixels, print_inputs);
+
+        image = transpose(image);
+    }
+
+    return image;
+}
+
+/*
+    Remove CTI trails from an image by first modelling the addition of CTI.
+
+    See add_cti()'s documentation for the forward modelling. This function
+    iteratively models the addition of more CTI trails to the input image to
+    then extract the corrected image without the original trails.
+
+    Parameters
+    ----------
+    All parameters are identical to those of add_cti() as described in its
+    documentation, with the exception of:
+
+    n_iterations : int
+        The number of times CTI-adding clocking is run to perform the correction
+        via forward modelling. More iterations provide better results at the
+        cost of longer runtime. In practice, two or three iterations are often
+        sufficient.
+
+    Returns
+    -------
+    image : std::valarray<std::valarray<double> >
+        The output array of pixel values with CTI removed.
+*/
+std::valarray<std::valarray<double> > remove_cti(
+    std::valarray<std::valarray<double> >& image_in, 
+    int n_iterations,
+    // Parallel
+    ROE* parallel_roe, CCD* parallel_ccd,
+    std::valarray<TrapInstantCapture>* parallel_traps_ic,
+    std::valarray<TrapSlowCapture>* parallel_traps_sc,
+    std::valarray<TrapInstantCaptureContinuum>* parallel_traps_ic_co,
+    std::valarray<TrapSlowCaptureContinuum>* parallel_traps_sc_co, 
+    int parallel_express, int parallel_offset, 
+    int parallel_window_start, int parallel_window_stop,
+    int parallel_time_start, int parallel_time_stop,
+    double parallel_prune_n_electrons, int parallel_prune_frequency,
+    // Serial
+    ROE* serial_roe, CCD* serial_ccd,
+    std::valarray<TrapInstantCapture>* serial_traps_ic,
+    std::valarray<TrapSlowCapture>* serial_traps_sc,
+    std::valarray<TrapInstantCaptureContinuum>* serial_traps_ic_co,
+    std::valarray<TrapSlowCaptureContinuum>* serial_traps_sc_co, 
+    int serial_express, int serial_offset, 
+    int serial_window_start, int serial_window_stop,
+    int serial_time_start, int serial_time_stop,
+    double serial_prune_n_electrons, int serial_prune_frequency,
+    // Combined
+    int allow_negative_pixels) {
+
+    print_version();
+
+    // Initialise the output image as a copy of the input image
+    std::valarray<std::valarray<double> > image_remove_cti = image_in;
+    std::valarray<std::valarray<double> > image_add_cti;
+
+    int n_rows = image_in.size();
+
+    // Estimate the image with removed CTI more accurately each iteration
+    for (int iteration = 1; iteration <= n_iterations; iteration++) {
+        print_v(1, "Iter %d: ", iteration);
+
+        // Model the effect of adding CTI trails
+        image_add_cti = add_cti(
+            image_remove_cti, parallel_roe, parallel_ccd, parallel_traps_ic,
+            parallel_traps_sc, parallel_traps_ic_co, parallel_traps_sc_co,
+            parallel_express, parallel_offset, 
+            parallel_window_start, parallel_window_stop, 
+            parallel_time_start, parallel_time_stop,
+            parallel_prune_n_electrons, parallel_prune_frequency,
+            serial_roe, serial_ccd, serial_traps_ic,
+            serial_traps_sc, serial_traps_ic_co, serial_traps_sc_co, serial_express,
+            serial_offset, serial_window_start, serial_window_stop, 
+            serial_time_start, serial_time_stop, 
+            serial_prune_n_electrons, serial_prune_frequency,
+            allow_negative_pixels, 0, iteration);
+
+        // Improve the estimate of the image with CTI trails removed
+        image_remove_cti += image_in - image_add_cti;
+
+        // Prevent negative image values
+        if (!allow_negative_pixels) {
+            for (int row_index = 0; row_index < n_rows; row_index++) {
+                image_remove_cti[row_index][image_remove_cti[row_index] < 0.0] = 0.0;
+            }
+        }
+    }
+
+    return image_remove_cti;
+}
-- 
2.43.0


From d1aa8f1056d0895aa9aca383c11bacb7a2c1dc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 02/45] fix: elapsed time across a second boundary

---
 src/util.cpp | 628 +++++++++++++++++++++++++--------------------------
 1 file changed, 314 insertions(+), 314 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index cd4881d..3c5ebcc 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -1,314 +1,314 @@
-
-#include "util.hpp"
-
-#include <math.h>
-#include <stdio.h>
-#include <sys/time.h>
-
-#include <string>
-#include <valarray>
-#include <vector>
-
-/*
-    Print the compiled version, set in the makefile.
-*/
-//extern std::string versionn() {
-//    return "hello1";
-//}
-
-std::string version_arctic() {
-#ifdef VERSION
-    return VERSION;
-#else
-    return "N/A";
-#endif
-}
-
-// ========
-// Printing
-// ========
-/*
-    Set the global verbosity parameter to control the amount of printed info:
-
-    0       No printing (except errors etc).
-    1       Standard.
-    2       Extra details.
-*/
-int verbosity = 1;
-void set_verbosity(int v) { verbosity = v; }
-
-/*
-    Print the compiled version, set in the makefile.
-*/
-void print_version() {
-//    std::string str = "\nArCTIc \n------ \n blah";
-//    char *cstr = new char[str.length() + 1];
-//    strcpy(cstr, str.c_str());
-//    char *version_string = str.c_str();
-//    printf(const char* c_str.(str));
-//    char* version_string = "\nArCTIc \n------ \n blah"; 
-//    // + version_arctic();
-//    print_v(1, "\nArCTIc \n------ \nblah");
-//    print_v(1, cstr);
-//    //print_v(1, "\nArCTIc \n------ \n"+version_arctic());
-#ifdef VERSION
-    print_v(1, "\nArCTIc v%s \n------ \n", VERSION);
-#else
-    print_v(1, "\nArCTIc \n------ \n");
-#endif
-}
-
-/*
-    Neatly print a 1D array.
-*/
-void print_array(std::valarray<double>& array) {
-    int n_col = array.size();
-
-    printf("[");
-    for (int i_col = 0; i_col < n_col; ++i_col) {
-        printf("%g", array[i_col]);
-        if (i_col != n_col - 1) printf(", ");
-    }
-    printf("]\n");
-
-    return;
-}
-
-/*
-    Neatly print a 1D array as 2D with n_col columns (2nd dimension).
-*/
-void print_array_2D(std::valarray<double>& array, int n_col) {
-    int n_tot = array.size();
-    int n_row = n_tot / n_col;
-
-    printf("[");
-    for (int i_row = 0; i_row < n_row; ++i_row) {
-        if (i_row == 0)
-            printf("[");
-        else
-            printf(" [");
-        for (int i_col = 0; i_col < n_col; ++i_col) {
-            printf("%g", array[i_row * n_col + i_col]);
-            if (i_col != n_col - 1)
-                printf(", ");
-            else if (i_row != n_row - 1)
-                printf("]\n");
-            else
-                printf("]]\n");
-        }
-    }
-
-    return;
-}
-
-/*
-    Neatly print an actual 2D array.
-*/
-void print_array_2D(std::valarray<std::valarray<double> >& array) {
-    int n_row = array.size();
-    int n_col;
-
-    printf("[");
-    for (int i_row = 0; i_row < n_row; ++i_row) {
-        n_col = array[i_row].size();
-
-        if (i_row == 0)
-            printf("[");
-        else
-            printf(" [");
-
-        for (int i_col = 0; i_col < n_col; ++i_col) {
-            printf("%g", array[i_row][i_col]);
-            if (i_col != n_col - 1)
-                printf(", ");
-            else if (i_row != n_row - 1)
-                printf("]\n");
-            else
-                printf("]]\n");
-        }
-    }
-
-    return;
-}
-
-// ========
-// Arrays
-// ========
-/*
-    Flatten a 2D valarray into a 1D vector. Useful for Catch2 test comparisons.
-*/
-std::vector<double> flatten(std::valarray<std::valarray<double> >& array) {
-    std::vector<double> vector;
-    int n_row = array.size();
-    int n_col;
-
-    for (int i_row = 0; i_row < n_row; i_row++) {
-        n_col = array[i_row].size();
-
-        for (int i_col = 0; i_col < n_col; i_col++) {
-            vector.push_back(array[i_row][i_col]);
-        }
-    }
-
-    return vector;
-}
-
-/*
-    Basic equivalent of numpy.arange().
-*/
-std::valarray<double> arange(double start, double stop, double step) {
-    // Create the array more easily as a vector
-    std::vector<double> tmp_array;
-    for (double value = start; value < stop; value += step) tmp_array.push_back(value);
-
-    // Convert to a valarray
-    std::valarray<double> array(tmp_array.data(), tmp_array.size());
-    return array;
-}
-
-/*
-    Transpose a 2D valarray.
-*/
-std::valarray<std::valarray<double> > transpose(
-    std::valarray<std::valarray<double> >& array) {
-
-    // Create the opposite-shape array
-    int n_rows = array.size();
-    int n_columns = array[0].size();
-    std::valarray<std::valarray<double> > array_T(
-        std::valarray<double>(0.0, n_rows), n_columns);
-
-    // Copy the values
-    for (int i_row = 0; i_row < n_rows; i_row++) {
-        for (int i_col = 0; i_col < n_columns; i_col++) {
-            array_T[i_col][i_row] = array[i_row][i_col];
-        }
-    }
-
-    return array_T;
-}
-
-// ========
-// I/O
-// ========
-/*
-    Load a 2D image from a text file.
-
-    File contents:
-        n_rows  n_columns
-        row_0_column_0  row_0_column_1  ...  row_0_column_n
-        row_1_column_0  ...             ...  ...
-        ...             ...             ...  ...
-        row_n_column 0  ...             ...
-
-    Parameters
-    ----------
-    filename : str
-        The path to the file to load.
-
-    Returns
-    -------
-    image : std::valarray<std::valarray<double> >
-        The loaded 2D image array.
-*/
-std::valarray<std::valarray<double> > load_image_from_txt(const char* filename) {
-    FILE* f = fopen(filename, "r");
-    if (!f) error("Failed to open image file '%s'", filename);
-
-    // Load image dimensions
-    int n_rows;
-    int n_columns;
-    int c = fscanf(f, "%d %d", &n_rows, &n_columns);
-    if (c != 2) error("Failed to read n_rows, n_columns '%s'", filename);
-
-    // Load image data
-    std::valarray<std::valarray<double> > image(
-        std::valarray<double>(n_columns), n_rows);
-    for (int i_row = 0; i_row < n_rows; i_row++) {
-        for (int i_col = 0; i_col < n_columns; i_col++) {
-            c = fscanf(f, "%lf", &image[i_row][i_col]);
-            if (c != 1)
-                error("Failed to read image [%d, %d] '%s'", i_row, i_col, filename);
-        }
-    }
-
-    fclose(f);
-
-    return image;
-}
-
-/*
-    Save a 2D image to a text file.
-
-    File contents:
-        n_rows  n_columns
-        row_0_column_0  row_0_column_1  ...  row_0_column_n
-        row_1_column_0  ...             ...  ...
-        ...             ...             ...  ...
-        row_n_column 0  ...             ...
-
-    Parameters
-    ----------
-    filename : str
-        The path to the file to load.
-
-    image : std::valarray<std::valarray<double> >
-        The 2D image array to save.
-*/
-void save_image_to_txt(
-    const char* filename, std::valarray<std::valarray<double> > image) {
-    FILE* f = fopen(filename, "w");
-    if (!f) error("Failed to open file '%s'", filename);
-
-    // Save image dimensions
-    int n_rows = image.size();
-    int n_columns = image[0].size();
-    fprintf(f, "%d %d \n", n_rows, n_columns);
-
-    // Save image data
-    for (int i_row = 0; i_row < n_rows; i_row++) {
-        for (int i_col = 0; i_col < n_columns; i_col++) {
-            fprintf(f, "%lf ", image[i_row][i_col]);
-        }
-        fprintf(f, "\n");
-    }
-
-    fclose(f);
-
-    return;
-}
-
-// ========
-// Misc
-// ========
-/*
-    Restrict a value to between two limits.
-*/
-double clamp(double value, double minimum, double maximum) {
-    if (value < minimum)
-        return minimum;
-    else if (value > maximum)
-        return maximum;
-    else
-        return value;
-}
-
-/*
-    Calculate the number of elapsed seconds between two times.
-*/
-double gettimelapsed(struct timeval start, struct timeval end) {
-    double seconds;
-    double microseconds;
-
-    seconds = end.tv_sec - start.tv_sec;
-    microseconds = end.tv_usec - start.tv_usec;
-
-    if (microseconds < 0.0) {
-        seconds -= 1.0;
-        microseconds = 1e6 - microseconds;
-    }
-
-    microseconds /= 1e6;
-
-    return seconds + microseconds;
-}
+
+#include "util.hpp"
+
+#include <math.h>
+#include <stdio.h>
+#include <sys/time.h>
+
+#include <string>
+#include <valarray>
+#include <vector>
+
+/*
+    Print the compiled version, set in the makefile.
+*/
+//extern std::string versionn() {
+//    return "hello1";
+//}
+
+std::string version_arctic() {
+#ifdef VERSION
+    return VERSION;
+#else
+    return "N/A";
+#endif
+}
+
+// ========
+// Printing
+// ========
+/*
+    Set the global verbosity parameter to control the amount of printed info:
+
+    0       No printing (except errors etc).
+    1       Standard.
+    2       Extra details.
+*/
+int verbosity = 1;
+void set_verbosity(int v) { verbosity = v; }
+
+/*
+    Print the compiled version, set in the makefile.
+*/
+void print_version() {
+//    std::string str = "\nArCTIc \n------ \n blah";
+//    char *cstr = new char[str.length() + 1];
+//    strcpy(cstr, str.c_str());
+//    char *version_string = str.c_str();
+//    printf(const char* c_str.(str));
+//    char* version_string = "\nArCTIc \n------ \n blah"; 
+//    // + version_arctic();
+//    print_v(1, "\nArCTIc \n------ \nblah");
+//    print_v(1, cstr);
+//    //print_v(1, "\nArCTIc \n------ \n"+version_arctic());
+#ifdef VERSION
+    print_v(1, "\nArCTIc v%s \n------ \n", VERSION);
+#else
+    print_v(1, "\nArCTIc \n------ \n");
+#endif
+}
+
+/*
+    Neatly print a 1D array.
+*/
+void print_array(std::valarray<double>& array) {
+    int n_col = array.size();
+
+    printf("[");
+    for (int i_col = 0; i_col < n_col; ++i_col) {
+        printf("%g", array[i_col]);
+        if (i_col != n_col - 1) printf(", ");
+    }
+    printf("]\n");
+
+    return;
+}
+
+/*
+    Neatly print a 1D array as 2D with n_col columns (2nd dimension).
+*/
+void print_array_2D(std::valarray<double>& array, int n_col) {
+    int n_tot = array.size();
+    int n_row = n_tot / n_col;
+
+    printf("[");
+    for (int i_row = 0; i_row < n_row; ++i_row) {
+        if (i_row == 0)
+            printf("[");
+        else
+            printf(" [");
+        for (int i_col = 0; i_col < n_col; ++i_col) {
+            printf("%g", array[i_row * n_col + i_col]);
+            if (i_col != n_col - 1)
+                printf(", ");
+            else if (i_row != n_row - 1)
+                printf("]\n");
+            else
+                printf("]]\n");
+        }
+    }
+
+    return;
+}
+
+/*
+    Neatly print an actual 2D array.
+*/
+void print_array_2D(std::valarray<std::valarray<double> >& array) {
+    int n_row = array.size();
+    int n_col;
+
+    printf("[");
+    for (int i_row = 0; i_row < n_row; ++i_row) {
+        n_col = array[i_row].size();
+
+        if (i_row == 0)
+            printf("[");
+        else
+            printf(" [");
+
+        for (int i_col = 0; i_col < n_col; ++i_col) {
+            printf("%g", array[i_row][i_col]);
+            if (i_col != n_col - 1)
+                printf(", ");
+            else if (i_row != n_row - 1)
+                printf("]\n");
+            else
+                printf("]]\n");
+        }
+    }
+
+    return;
+}
+
+// ========
+// Arrays
+// ========
+/*
+    Flatten a 2D valarray into a 1D vector. Useful for Catch2 test comparisons.
+*/
+std::vector<double> flatten(std::valarray<std::valarray<double> >& array) {
+    std::vector<double> vector;
+    int n_row = array.size();
+    int n_col;
+
+    for (int i_row = 0; i_row < n_row; i_row++) {
+        n_col = array[i_row].size();
+
+        for (int i_col = 0; i_col < n_col; i_col++) {
+            vector.push_back(array[i_row][i_col]);
+        }
+    }
+
+    return vector;
+}
+
+/*
+    Basic equivalent of numpy.arange().
+*/
+std::valarray<double> arange(double start, double stop, double step) {
+    // Create the array more easily as a vector
+    std::vector<double> tmp_array;
+    for (double value = start; value < stop; value += step) tmp_array.push_back(value);
+
+    // Convert to a valarray
+    std::valarray<double> array(tmp_array.data(), tmp_array.size());
+    return array;
+}
+
+/*
+    Transpose a 2D valarray.
+*/
+std::valarray<std::valarray<double> > transpose(
+    std::valarray<std::valarray<double> >& array) {
+
+    // Create the opposite-shape array
+    int n_rows = array.size();
+    int n_columns = array[0].size();
+    std::valarray<std::valarray<double> > array_T(
+        std::valarray<double>(0.0, n_rows), n_columns);
+
+    // Copy the values
+    for (int i_row = 0; i_row < n_rows; i_row++) {
+        for (int i_col = 0; i_col < n_columns; i_col++) {
+            array_T[i_col][i_row] = array[i_row][i_col];
+        }
+    }
+
+    return array_T;
+}
+
+// ========
+// I/O
+// ========
+/*
+    Load a 2D image from a text file.
+
+    File contents:
+        n_rows  n_columns
+        row_0_column_0  row_0_column_1  ...  row_0_column_n
+        row_1_column_0  ...             ...  ...
+        ...             ...             ...  ...
+        row_n_column 0  ...             ...
+
+    Parameters
+    ----------
+    filename : str
+        The path to the file to load.
+
+    Returns
+    -------
+    image : std::valarray<std::valarray<double> >
+        The loaded 2D image array.
+*/
+std::valarray<std::valarray<double> > load_image_from_txt(const char* filename) {
+    FILE* f = fopen(filename, "r");
+    if (!f) error("Failed to open image file '%s'", filename);
+
+    // Load image dimensions
+    int n_rows;
+    int n_columns;
+    int c = fscanf(f, "%d %d", &n_rows, &n_columns);
+    if (c != 2) error("Failed to read n_rows, n_columns '%s'", filename);
+
+    // Load image data
+    std::valarray<std::valarray<double> > image(
+        std::valarray<double>(n_columns), n_rows);
+    for (int i_row = 0; i_row < n_rows; i_row++) {
+        for (int i_col = 0; i_col < n_columns; i_col++) {
+            c = fscanf(f, "%lf", &image[i_row][i_col]);
+            if (c != 1)
+                error("Failed to read image [%d, %d] '%s'", i_row, i_col, filename);
+        }
+    }
+
+    fclose(f);
+
+    return image;
+}
+
+/*
+    Save a 2D image to a text file.
+
+    File contents:
+        n_rows  n_columns
+        row_0_column_0  row_0_column_1  ...  row_0_column_n
+        row_1_column_0  ...             ...  ...
+        ...             ...             ...  ...
+        row_n_column 0  ...             ...
+
+    Parameters
+    ----------
+    filename : str
+        The path to the file to load.
+
+    image : std::valarray<std::valarray<double> >
+        The 2D image array to save.
+*/
+void save_image_to_txt(
+    const char* filename, std::valarray<std::valarray<double> > image) {
+    FILE* f = fopen(filename, "w");
+    if (!f) error("Failed to open file '%s'", filename);
+
+    // Save image dimensions
+    int n_rows = image.size();
+    int n_columns = image[0].size();
+    fprintf(f, "%d %d \n", n_rows, n_columns);
+
+    // Save image data
+    for (int i_row = 0; i_row < n_rows; i_row++) {
+        for (int i_col = 0; i_col < n_columns; i_col++) {
+            fprintf(f, "%lf ", image[i_row][i_col]);
+        }
+        fprintf(f, "\n");
+    }
+
+    fclose(f);
+
+    return;
+}
+
+// ========
+// Misc
+// ========
+/*
+    Restrict a value to between two limits.
+*/
+double clamp(double value, double minimum, double maximum) {
+    if (value < minimum)
+        return minimum;
+    else if (value > maximum)
+        return maximum;
+    else
+        return value;
+}
+
+/*
+    Calculate the number of elapsed seconds between two times.
+*/
+double gettimelapsed(struct timeval start, struct timeval end) {
+    double seconds;
+    double microseconds;
+
+    seconds = end.tv_sec - start.tv_sec;
+    microseconds = end.tv_usec - start.tv_usec;
+
+    if (microseconds < 0.0) {
+        seconds -= 1.0;
+        microseconds = 1e6 + microseconds;
+    }
+
+    microseconds /= 1e6;
+
+    return seconds + microseconds;
+}
-- 
2.43.0


From 213e994ca6633344349404f674228e5385941317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 03/45] fix: slow-capture traps return the charge they release
 into an empty cloud

---
 src/trap_managers.cpp | 4858 ++++++++++++++++++++---------------------
 1 file changed, 2429 insertions(+), 2429 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index a3a3362..8dc4591 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1,2429 +1,2429 @@
-
-#include "trap_managers.hpp"
-
-#include <math.h>
-#include <stdio.h>
-
-#include <valarray>
-
-#include "ccd.hpp"
-#include "traps.hpp"
-#include "util.hpp"
-#include <iostream>
-
-// ========
-// TrapManagerBase::
-// ========
-/*
-    Class TrapManagerBase.
-
-    Abstract base class for the trap manager of one or multiple trap species
-    that are able to use watermarks in the same way as each other.
-
-    Parameters
-    ----------
-    traps : std::valarray<Trap>
-        A list of one or more trap species of the specific trap manager's type.
-
-        Not included in this base class, since the different managers require
-        different class types for the array.
-
-    max_n_transfers : int
-        The number of pixel transfers containing traps that charge will be
-        expected to go through. This feeds in to the maximum number of possible
-        capture/release events that could create new watermark levels, and is
-        used to initialise the watermark array to be only as large as needed.
-
-    ccd_phase : CCDPhase
-        Parameters to describe how electrons fill the volume inside (one phase
-        of) a pixel in a CCD detector.
-
-    dwell_time : double
-        The time spent in this pixel or phase, in the same units as the trap
-        timescales.
-
-    Attributes
-    ----------
-    n_traps : int
-        The number of trap species.
-
-    trap_densities : std::valarray<double>
-        The density of each trap species.
-
-    watermark_volumes : std::valarray<double>
-        Array of watermark fractional volumes to describe the trap states, i.e.
-        the proportion of the pixel volume occupied by each (active) watermark.
-
-    watermark_fills : std::valarray<double>
-        2D-style 1D array of watermark fill fractions to describe the trap
-        states, i.e. the proportion of traps that are filled in each (active)
-        watermark, multiplied by the trap's density, for each trap species.
-
-        Examples of slicing the arrays:
-            The ith watermark, jth trap fill:
-                watermark_fills[ i * n_traps + j ]
-
-            The ith watermark "row" of the fills:
-                watermark_fills[ std::slice(i * n_traps, n_traps, 1) ]
-
-            The ith trap species "column" of the fills:
-                watermark_fills[ std::slice(i, n_watermarks, n_traps) ]
-
-            The ith-to-jth watermark slices of the volumes and (all) the fills:
-                watermark_volumes[ std::slice(i, j - i, 1) ]
-                watermark_fills[ std::slice(i * n_traps, (j - i) * n_traps, 1) ]
-
-    empty_watermark : double
-        The watermark fill value corresponding to empty traps.
-
-    zeroth_watermark : double
-        The lowest watermark height value yet considered.
-
-    n_active_watermarks : int
-        The number of currently active watermark levels.
-
-    i_first_active_wmk : int
-        The index of the first active watermark. The effective starting point
-        for the active region of the watermark arrays. i.e. watermark levels
-        below this are ignored because they've been superseded.
-
-        This is primarily used by instant-capture traps where a charge cloud
-        will entirely fill all traps below it, making any pre-existing lower
-        watermarks no longer necessary to track.
-
-    n_watermarks_per_transfer : int
-        The number of new watermarks that could be made in each transfer.
-
-    n_watermarks : int
-        The total number of available watermark levels, determined by the number
-        of potential watermark-creating transfers and the watermarking scheme.
-*/
-TrapManagerBase::TrapManagerBase(
-    int max_n_transfers, CCDPhase ccd_phase, double dwell_time)
-    : max_n_transfers(max_n_transfers), ccd_phase(ccd_phase), dwell_time(dwell_time) {
-
-    empty_watermark = 0.0;
-    zeroth_watermark = 0.0;
-    n_active_watermarks = 0;
-    i_first_active_wmk = 0;
-    n_watermarks_per_transfer = 1;
-}
-
-/*
-    Initialise the watermark arrays.
-
-    Sets
-    ----
-    n_watermarks : int
-        The total number of available watermarks.
-
-    watermark_volumes, watermark_fills : std::valarray<double>
-        The initial empty watermark arrays.
-*/
-void TrapManagerBase::initialise_trap_states() {
-    n_watermarks = max_n_transfers * n_watermarks_per_transfer + 1;
-
-    watermark_volumes = std::valarray<double>(zeroth_watermark, n_watermarks);
-    watermark_fills = std::valarray<double>(empty_watermark, n_traps * n_watermarks);
-    //empty_probabilities_from_release = std::valarray<double>(0.0, n_traps);
-    
-    // Initialise the stored trap states too
-    store_trap_states();
-}
-
-/*
-    Reset the watermark arrays to empty.
-*/
-void TrapManagerBase::reset_trap_states() {
-    n_active_watermarks = 0;
-    i_first_active_wmk = 0;
-    watermark_volumes = zeroth_watermark;
-    watermark_fills = empty_watermark;
-}
-
-/*
-    Store the watermark arrays to be loaded again later.
-*/
-void TrapManagerBase::store_trap_states() {
-    stored_n_active_watermarks = n_active_watermarks;
-    stored_i_first_active_wmk = i_first_active_wmk;
-    stored_watermark_volumes = watermark_volumes;
-    stored_watermark_fills = watermark_fills;
-}
-
-/*
-    Restore the watermark arrays to their saved values.
-*/
-void TrapManagerBase::restore_trap_states() {
-    n_active_watermarks = stored_n_active_watermarks;
-    i_first_active_wmk = stored_i_first_active_wmk;
-    watermark_volumes = stored_watermark_volumes;
-    watermark_fills = stored_watermark_fills;
-}
-
-/*
-    Call any necessary initialisation functions, etc.
-*/
-void TrapManagerBase::setup() { initialise_trap_states(); }
-
-/*
-    Report the number of electrons currently held in all traps
-    within a single watermark.
-
-    Returns
-    -------
-    n_trapped_electrons_per_watermark : std::valarray<double>
-        The total number of electrons (summed over different species of 
-        traps) stored in a particular watermark.
-*/
-double TrapManagerBase::n_trapped_electrons_in_watermark(int i_wmk) {
-
-    // Fill fraction * trap density (an array for each trap species)
-    std::valarray<double> fill_fractions_in_this_wmk =
-        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
-    // Multiplied by volume
-    double n_trapped_electrons_in_this_wmk = 
-        fill_fractions_in_this_wmk.sum() * watermark_volumes[i_wmk];
-
-    return n_trapped_electrons_in_this_wmk;
-}
-
-/*
-    Report the number of electrons currently held in all traps.
-
-    Returns
-    -------
-    n_trapped_electrons_per_watermark : std::valarray<double>
-        The total number of electrons (summed over different species of 
-        traps) stored in all watermarks.
-*/
-std::valarray<double> TrapManagerBase::n_trapped_electrons_per_watermark() {
-
-    // Count the total number of electrons in each active watermark
-    std::valarray<double> fill_fractions_this_wmk(n_traps);
-    std::valarray<double> n_trapped_electrons_per_wmk(n_watermarks);
-    double n_trapped_electrons_in_total = 0;
-    double highest_watermark = 0;
-
-
-    for (int i_wmk = i_first_active_wmk;
-        i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-
-        // Extract the fill fractions in a 1D array
-        fill_fractions_this_wmk =
-            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
-        // Sum the fill fractions and multiply by the fractional volume
-        n_trapped_electrons_per_wmk[i_wmk] = 
-            fill_fractions_this_wmk.sum() * watermark_volumes[i_wmk];
-                
-        //print_v(0,"watermArk: %d volume: %g fill: %g n_electrons: %g n_traps: %d \n", 
-        //    i_wmk,watermark_volumes[i_wmk],
-        //    fill_fractions_this_wmk.sum(),
-        //    n_trapped_electrons_per_wmk[i_wmk],n_traps);
-
-    }
-    //print_v(0,"Total n_electrons %16.12g, highest watermark %16.12g\n",n_trapped_electrons_in_total,highest_watermark);
-
-    return n_trapped_electrons_per_wmk;
-}
-double TrapManagerBase::n_trapped_electrons_total() {
-
-    // No watermarks
-    if (n_active_watermarks == 0) return 0.0;
-    
-    // Sum over all watermarks
-    double n_trapped_electrons = (n_trapped_electrons_per_watermark()).sum();
-
-    return n_trapped_electrons;
-}
-
-
-
-/*
-    Sum the total number of electrons currently held in traps.
-
-    Parameters
-    ----------
-    wmk_volumes, wmk_fills : std::valarray<double>
-        The watermark arrays.
-
-    Returns
-    -------
-    n_trapped_electrons : double
-        The number of electrons stored in traps.
-*/
-double TrapManagerBase::n_trapped_electrons_from_watermarks(
-    std::valarray<double> wmk_volumes, std::valarray<double> wmk_fills) {
-
-    // No watermarks
-    if (n_active_watermarks == 0) return 0.0;
-
-    double n_trapped_electrons_total = 0.0;
-    std::valarray<double> n_trapped_electrons_this_wmk(n_traps);
-
-    // Each active watermark
-    for (int i_wmk = i_first_active_wmk;
-         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-        // Extract the fill fractions in a 1D array
-        n_trapped_electrons_this_wmk =
-            wmk_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
-
-        // Sum the fill fractions and multiply by the fractional volume
-        n_trapped_electrons_total += n_trapped_electrons_this_wmk.sum() * wmk_volumes[i_wmk];
-    }
-
-    return n_trapped_electrons_total;
-}
-
-
-
-/*
-    Reduce the value of the lowest watermark ever seen. It starts at zero, so this
-    function is only activated if the image contains negative pixels. 
-
-    Parameters
-    ----------
-    cloud_fractional_volume : double
-        The fractional volume the electron cloud reaches in the pixel well.
-
-    Returns
-    -------
-    i_wmk_above_cloud : int
-        The index of the first active watermark that reaches above the cloud.
-*/
-void TrapManagerBase::lower_zeroth_watermark(double n_free_electrons) {
-    //zeroth_watermark = n_free_electrons;
-}
-
-
-
-/*
-    Remove watermarks containing very low numbers of electrons, for speed later.
-    
-    To remove watermark i that contains Ni electrons in volume Vi,
-    we push all those electrons down to the next lower watermark b such that
-      Vb' = Vb + Vb Ni/Nb
-      fb' = fb
-      Nb' = Nb + Ni   ( = Vb' * fb' )
-    and increase the volume of the watermark above such that
-      Va' = Va + Vi - Vb Ni/Nb
-      fa' = fa * Va/Va'
-      Na' = Na        ( = Va' * fa' )
-    
-    Parameters
-    ----------
-    min_n_electrons : double Default [0] i.e. do nothing
-        If this is positive...
-        If a watermark contains fewer than this number of electrons, it will be
-        dissolved.
-        If this is negative...
-        If a watermark will release fewer than this number of electrons in the next
-        time setp, it will be dissolved.
-*/
-void TrapManagerBase::prune_watermarks(double min_n_electrons) {
-
-    
-
-    // With only one watermark, not much can be done
-    if (n_active_watermarks <= 1) return; // Cannot prune if there is only a trunk
-    if (n_trapped_electrons_in_watermark(i_first_active_wmk) <= 0) return; // Something has gone wrong to get here
-    print_v(3, "prune watermarks continaing fewer than %g electrons. Watermarks: %d %d\n", min_n_electrons, i_first_active_wmk, n_active_watermarks);
-
-    // Count the total number of electrons in each watermark
-    print_v(3,"\n\n Fill fractions before prune (first %d n %d)\n",i_first_active_wmk, n_active_watermarks);
-    std::valarray<double> n_trapped_electrons_per_wmk = n_trapped_electrons_per_watermark();
-    double n_trapped_electrons_start = n_trapped_electrons_per_wmk.sum();
-    double n_trapped_electrons_in_this_wmk;
-    double test_value;
-    double test_criterion = abs(min_n_electrons);
-              
-    // Consider each active watermark
-    int n_watermarks_pruned = 0;
-    for (int i_wmk = i_first_active_wmk + 1;
-        i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-        
-        int i_wmk_prime = i_wmk - n_watermarks_pruned;
-                
-        // Work out how many electrons are in this watermark
-        n_trapped_electrons_in_this_wmk = n_trapped_electrons_in_watermark(i_wmk_prime);
-        if (min_n_electrons > 0) {
-            test_value = n_trapped_electrons_in_this_wmk;
-        } else {
-            test_value = n_electrons_released_from_wmk_above_cloud(i_wmk_prime);
-        } 
-        if (test_value < test_criterion) {
-            
-            // Push the small number of electrons down into previous watermark
-            // (redistributing them between trap species by keeping fill fractions 
-            // as before, but increasing the watermark volume. This is not ideal
-            // but ensures no fill fractions ever exceed 1)
-            double n_trapped_electrons_in_last_wmk = n_trapped_electrons_in_watermark(i_wmk_prime - 1);
-                        
-            double delta_volume_below = watermark_volumes[i_wmk_prime - 1] *
-                n_trapped_electrons_in_this_wmk / n_trapped_electrons_in_last_wmk;
-
-/*            // Temp report
-            std::valarray<double> fill_fractions_in_down_wmk =
-                watermark_fills[std::slice((i_wmk_prime-1) * n_traps, n_traps, 1)];
-            double n_trapped_electrons_in_down_wmk = 
-                fill_fractions_in_down_wmk.sum() * watermark_volumes[i_wmk_prime-1]; 
-            print_v(0,"DownIncTo: %d volume: %g fill: %g n_electrons: %g \n", 
-                i_wmk_prime-1,watermark_volumes[i_wmk_prime-1],
-                fill_fractions_in_down_wmk.sum(),
-                n_trapped_electrons_in_down_wmk);
-
-            // Temp report
-            std::valarray<double> fill_fractions_in_this_wmk =
-                watermark_fills[std::slice(i_wmk_prime * n_traps, n_traps, 1)];
-            double n_trapped_electrons_in_this_wmk = 
-                fill_fractions_in_this_wmk.sum() * watermark_volumes[i_wmk_prime]; 
-            print_v(0,"ThisRemov: %d volume: %g fill: %g n_electrons: %g test: %g \n", 
-                i_wmk_prime,watermark_volumes[i_wmk_prime],
-                fill_fractions_in_this_wmk.sum(),
-                n_trapped_electrons_in_this_wmk,test_value);
-*/            
-            
-            
-            watermark_volumes[i_wmk_prime - 1] += delta_volume_below;
-            
-            // If there is a higher watermark...
-            if ((i_wmk + 1) < (i_first_active_wmk + n_active_watermarks)) {
-                
-                
-
-/*                // Temp report
-                std::valarray<double> fill_fractions_in_next_wmk =
-                    watermark_fills[std::slice((i_wmk_prime+1) * n_traps, n_traps, 1)];
-                double n_trapped_electrons_in_next_wmk = 
-                    fill_fractions_in_next_wmk.sum() * watermark_volumes[i_wmk_prime+1]; 
-                print_v(0,"ReplaceBy: %d volume: %g fill: %g n_electrons: %g \n", 
-                    i_wmk_prime,watermark_volumes[i_wmk_prime+1],
-                    fill_fractions_in_next_wmk.sum(),
-                    n_trapped_electrons_in_next_wmk);
-*/
-         
-                
-                // ...increase its volume to compensate,
-                double delta_volume_above = watermark_volumes[i_wmk_prime] - delta_volume_below;
-                watermark_volumes[i_wmk_prime + 1] += delta_volume_above;
-                
-                // Prevent division by zero if Va = Vi = 0
-                if (watermark_volumes[i_wmk_prime + 1] > 0) {
-
-                    // ...reduce its fill fraction to preserve number of electrons, 
-                    double fill_multiplier = 
-                        (watermark_volumes[i_wmk_prime + 1] - delta_volume_above) /
-                        watermark_volumes[i_wmk_prime + 1];
-                    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                        watermark_fills[(i_wmk_prime + 1) * n_traps + i_trap] *= fill_multiplier;
-                    }
-                
-                } //else { print_v(0,"Problem watermark!\n"); } 
-                // These fill fractions should be zero (I hope), so don't change them anyway.
-                
-                // ...then shuffle all higher watermarks down to earlier watermark position
-                for (int j_wmk = i_wmk + 1;
-                    j_wmk < i_first_active_wmk + n_active_watermarks; j_wmk++) {
-                
-                    int j_wmk_prime = j_wmk - n_watermarks_pruned - 1;
-                    watermark_volumes[j_wmk_prime] = watermark_volumes[j_wmk_prime + 1];
-                    watermark_fills[std::slice(j_wmk_prime * n_traps, n_traps, 1)] = 
-                        watermark_fills[std::slice((j_wmk_prime + 1) * n_traps, n_traps, 1)];
-                }
-            }
-            n_watermarks_pruned += 1;          
-        } else {
-
-/*            // Temp report
-            std::valarray<double> fill_fractions_in_this_wmk =
-                watermark_fills[std::slice(i_wmk_prime * n_traps, n_traps, 1)];
-            double n_trapped_electrons_in_this_wmk = 
-                fill_fractions_in_this_wmk.sum() * watermark_volumes[i_wmk_prime]; 
-            print_v(0,"ThisStays: %d volume: %g fill: %g n_electrons: %g test: %g \n", 
-                i_wmk_prime,watermark_volumes[i_wmk_prime],
-                fill_fractions_in_this_wmk.sum(),
-                n_trapped_electrons_in_this_wmk,test_value);
- */       
-        }
-    }
-    n_active_watermarks -= n_watermarks_pruned;
-
-    // Count the total number of electrons in each watermark
-    print_v(3,"\n\n Fill fractions after prune (first %d n %d)\n",i_first_active_wmk, n_active_watermarks);
-    
-    //int flag;
-    //flag = std::cin.get();
-    //if(flag == 'q') { abort(); }
-}
-
-/*
-    Find the index of the watermark with a volume that reaches above the cloud.
-
-    Parameters
-    ----------
-    cloud_fractional_volume : double
-        The fractional volume the electron cloud reaches in the pixel well.
-
-    Returns
-    -------
-    i_wmk_above_cloud : int
-        The index of the first active watermark that reaches above the cloud.
-*/
-int TrapManagerBase::watermark_index_above_cloud(double cloud_fractional_volume) {
-    double cumulative_volume = zeroth_watermark;
-    
-    // Sum up the fractional volumes until surpassing the cloud volume
-    for (int i_wmk = i_first_active_wmk;
-         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-        // Total volume so far
-        cumulative_volume += watermark_volumes[i_wmk];
-
-        if (cumulative_volume > cloud_fractional_volume) return i_wmk;
-    }
-
-    // Cloud volume above all watermarks
-    return i_first_active_wmk + n_active_watermarks;
-}
-
-/*
-    How many electrons will be released from a watermark above the cloud,
-    during the next timestep.
-
-    Parameters
-    ----------
-    cloud_fractional_volume : double
-        The fractional volume the electron cloud reaches in the pixel well.
-
-    Returns
-    -------
-    i_wmk_above_cloud : int
-        The index of the first active watermark that reaches above the cloud.
-*/
-double TrapManagerBase::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
-    throw std::runtime_error( "this should get replaced for any trap type" );
-    return 0;
-}
-
-
-
-
-
-
-
-
-
-
-// ========
-// TrapManagerInstantCapture::
-// ========
-/*
-    Class TrapManagerInstantCapture.
-
-    For the standard release-then-instant-capture algorithm.
-
-    Attributes
-    ----------
-    any_non_uniform_traps : double
-        Default false, set to true if any of the traps have a non-uniform
-        distribution with volume, in which case some small extra steps are
-        required in the release and capture functions.
-*/
-TrapManagerInstantCapture::TrapManagerInstantCapture(
-    std::valarray<TrapInstantCapture> traps, int max_n_transfers, CCDPhase ccd_phase,
-    double dwell_time)
-    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
-
-    n_traps = traps.size();
-    trap_densities = std::valarray<double>(n_traps);
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        trap_densities[i_trap] = traps[i_trap].density;
-    }
-
-    any_non_uniform_traps = false;
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        if (traps[i_trap].fractional_volume_full_exposed > 0.0) {
-            any_non_uniform_traps = true;
-            break;
-        }
-    }
-}
-
-/*
-    Set the probabilities of traps being full after release.
-
-    Sets
-    ----
-    empty_probabilities_from_release : std::valarray<double>
-        The fraction of traps that were full that become empty after release.
-*/
-void TrapManagerInstantCapture::set_fill_probabilities() {
-    empty_probabilities_from_release = std::valarray<double>(0.0, n_traps);
-
-    // Set probabilities for each trap species
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        // Resulting empty fraction from release
-        empty_probabilities_from_release[i_trap] =
-            1.0 - exp(-traps[i_trap].release_rate * dwell_time);
-    }
-}
-
-/*
-    Call any necessary initialisation functions, etc.
-*/
-void TrapManagerInstantCapture::setup() {
-    initialise_trap_states();
-    set_fill_probabilities();
-}
-
-/*
-    Release electrons from traps and update the watermarks.
-
-    Returns
-    -------
-    n_electrons_released : double
-        The number of released electrons.
-
-    Updates
-    -------
-    watermark_volumes, watermark_fills : std::valarray<double>
-        The updated watermarks.
-*/
-double TrapManagerInstantCapture::n_electrons_released() {
-    double n_released = 0.0;
-    double n_released_this_wmk;
-    double frac_released;
-    double frac_exposed_per_volume;
-    double cumulative_volume = 0.0;
-    double next_cumulative_volume = 0.0;
-
-    // Each active watermark
-    for (int i_wmk = i_first_active_wmk;
-         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-        n_released_this_wmk = 0.0;
-
-        if (any_non_uniform_traps) {
-            // Total volume at the bottom and top of this watermark
-            cumulative_volume = next_cumulative_volume;
-            next_cumulative_volume += watermark_volumes[i_wmk];
-        }
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Fraction of released electrons
-            frac_released = watermark_fills[i_wmk * n_traps + i_trap] *
-                            empty_probabilities_from_release[i_trap];
-
-            // Account for non-uniform distribution with volume
-            if (traps[i_trap].fractional_volume_full_exposed == 0.0)
-                frac_exposed_per_volume = 1.0;
-            else
-                frac_exposed_per_volume =
-                    traps[i_trap].fraction_traps_exposed_per_fractional_volume(
-                        cumulative_volume, next_cumulative_volume);
-
-            // Number released
-            n_released_this_wmk += frac_released * frac_exposed_per_volume;
-
-            // Update the watermark fill fraction
-            watermark_fills[i_wmk * n_traps + i_trap] -= frac_released;
-        }
-
-        // Multiply by the watermark volume
-        n_released += n_released_this_wmk * watermark_volumes[i_wmk];
-    }
-
-    return n_released;
-}
-
-/*
-    How many electrons will be released from a watermark above the cloud,
-    during the next timestep.
-
-    Parameters
-    ----------
-    cloud_fractional_volume : double
-        The fractional volume the electron cloud reaches in the pixel well.
-
-    Returns
-    -------
-    i_wmk_above_cloud : int
-        The index of the first active watermark that reaches above the cloud.
-*/
-double TrapManagerInstantCapture::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
-    
-    //print_v(0,"IC child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
-
-    // Fraction of electrons released from each trap species
-    double frac_released_this_wmk = 0.0;
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        // Fraction of released electrons
-        frac_released_this_wmk +=
-            watermark_fills[i_wmk * n_traps + i_trap] *
-            empty_probabilities_from_release[i_trap];
-    }
-
-    // Multiply by the watermark volume
-    return frac_released_this_wmk * watermark_volumes[i_wmk];
-}
-
-/*
-    Modify the watermarks for normal capture.
-
-    Parameters
-    ----------
-    cloud_fractional_volume : double
-        The fractional volume the electron cloud reaches in the pixel well.
-
-    i_wmk_above_cloud : int
-        The index of the first active watermark that reaches above the cloud.
-
-    Updates
-    -------
-    watermark_volumes, watermark_fills : std::valarray<double>
-        The updated watermarks.
-*/
-void TrapManagerInstantCapture::update_watermarks_capture(
-    double cloud_fractional_volume, int i_wmk_above_cloud) {
-    // First capture
-    if (n_active_watermarks == 0) {
-        // Set fractional volume
-        watermark_volumes[0] = cloud_fractional_volume - zeroth_watermark;
-
-        // Set fill fractions for all trap species
-        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities;
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    // Cloud below all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk) {
-
-        // Make room for the new lowest watermark
-        if (i_first_active_wmk > 0) {
-            // Use existing room below the current first active watermark
-            i_first_active_wmk--;
-        } else {
-            // Copy-paste all higher watermarks up one to make room
-            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-                 i_wmk >= i_first_active_wmk; i_wmk--) {
-                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                        watermark_fills[i_wmk * n_traps + i_trap];
-                }
-            }
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-
-        // New watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            trap_densities;
-
-        // Update fractional volume of the partially overwritten watermark above
-        watermark_volumes[i_first_active_wmk + 1] -= (cloud_fractional_volume - zeroth_watermark);
-    }
-
-    // Cloud above all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
-        // Skip all overwritten watermarks
-        i_first_active_wmk = i_wmk_above_cloud - 1;
-
-        // New first watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            trap_densities;
-
-        // Update count of active watermarks
-        print_v(2,"Resetting watermarks\n");
-        n_active_watermarks = 1;
-    }
-
-    // Cloud between current watermarks
-    else {
-        // Update fractional volume of the partially overwritten watermark
-        double previous_total_volume = zeroth_watermark;
-        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-            previous_total_volume += watermark_volumes[i_wmk];
-        }
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
-
-        // Update count of active watermarks
-        n_active_watermarks += i_first_active_wmk - i_wmk_above_cloud + 1;
-
-        // Skip all overwritten watermarks
-        i_first_active_wmk = i_wmk_above_cloud - 1;
-
-        // New first watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            trap_densities;
-    }
-
-    return;
-}
-
-/*
-    Modify the watermarks for capture when not enough electrons are available.
-
-    Each watermark is partially filled a fraction (`enough`) of the way to full,
-    such that the resulting number of captured electrons is restricted to the
-    number actually available for capture.
-
-    This only becomes relevant for tiny numbers of electrons, where the cloud
-    can reach a disproportionately large volume in the pixel (reaching
-    correspondingly many traps) for the small amount of charge.
-
-    Parameters
-    ----------
-    cloud_fractional_volume : double
-        The fractional volume the electron cloud reaches in the pixel well.
-
-    i_wmk_above_cloud : int
-        The index of the first active watermark that reaches above the cloud.
-
-    enough : double
-        The amount of electrons available as a fraction of the number that
-        could be captured by the watermarks reached by the cloud volume.
-
-    Updates
-    -------
-    watermark_volumes, watermark_fills : std::valarray<double>
-        The updated watermarks.
-*/
-void TrapManagerInstantCapture::update_watermarks_capture_not_enough(
-    double cloud_fractional_volume, int i_wmk_above_cloud, double enough) {
-    // First capture
-    if (n_active_watermarks == 0) {
-        // Set fractional volume
-        watermark_volumes[0] = cloud_fractional_volume - zeroth_watermark;
-
-        // Set fill fractions for all trap species
-        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities * enough;
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    // Cloud below all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk) {
-
-        // Make room for the new lowest watermark
-        if (i_first_active_wmk > 0) {
-            // Use existing room below the current first active watermark
-            i_first_active_wmk--;
-        } else {
-            // Copy-paste all higher watermarks up one to make room
-            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-                 i_wmk >= i_first_active_wmk; i_wmk--) {
-                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                        watermark_fills[i_wmk * n_traps + i_trap];
-                }
-            }
-        }
-
-        // New watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            (std::valarray<double>)watermark_fills[std::slice(
-                i_first_active_wmk * n_traps, n_traps, 1)] *
-                (1.0 - enough) +
-            enough * trap_densities; // is this wrong? the new watermark level should be created full
-
-        // Update fractional volume of the partially overwritten watermark above
-        watermark_volumes[i_first_active_wmk + 1] -= (cloud_fractional_volume - zeroth_watermark);
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    // Cloud above all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
-        // Cumulative volume of the watermark just below the new one
-        double volume_below = zeroth_watermark;
-        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-            volume_below += watermark_volumes[i_wmk];
-        }
-
-        // New watermark
-        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
-        //print_v(0,"Above cloud notenough. i %d wv %g cfv %g vb %g\n",i_wmk_above_cloud,watermark_volumes[i_wmk_above_cloud],cloud_fractional_volume,volume_below);
-        watermark_fills[std::slice(
-            (i_first_active_wmk + n_active_watermarks) * n_traps, n_traps, 1)] =
-            enough * trap_densities;
-
-        // Update all other watermarks part-way to full
-        for (int i_wmk = i_first_active_wmk;
-             i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
-                (std::valarray<double>)
-                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
-                    (1.0 - enough) +
-                enough * trap_densities;
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    // Cloud between current watermarks
-    else {
-        // Copy-paste all higher watermarks up one to make room
-        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-             i_wmk >= i_wmk_above_cloud; i_wmk--) {
-            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                    watermark_fills[i_wmk * n_traps + i_trap];
-            }
-        }
-
-        // Cumulative volume of the watermark just below the new one
-        double volume_below = zeroth_watermark;
-        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-            volume_below += watermark_volumes[i_wmk];
-        }
-
-        // New watermark
-        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
-
-        // Update volume of the partially overwritten watermark
-        //print_v(0,"wmv %g %g\n",watermark_volumes[i_wmk_above_cloud + 1],watermark_volumes[i_wmk_above_cloud + 1]-watermark_volumes[i_wmk_above_cloud]);
-        watermark_volumes[i_wmk_above_cloud + 1] -=
-            watermark_volumes[i_wmk_above_cloud];
-
-        // Update all watermarks, including the new one, part-way to full
-        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
-                (std::valarray<double>)
-                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
-                    (1.0 - enough) +
-                enough * trap_densities;
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    return;
-}
-
-/*
-    Capture electrons in traps and update the watermarks.
-
-    Parameters
-    ----------
-    n_free_electrons : double
-        The number of available electrons for trapping.
-
-    Returns
-    -------
-    n_electrons_captured : double
-        The number of captured electrons.
-
-    Updates
-    -------
-    watermark_volumes, watermark_fills : std::valarray<double>
-        The updated watermarks.
-*/
-double TrapManagerInstantCapture::n_electrons_captured(double n_free_electrons) {
-    // The fractional volume the electron cloud reaches in the pixel well
-    double cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-
-    // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
-
-    // ========
-    // Count the number of electrons that can be captured by each watermark
-    // ========
-    double n_captured = 0.0;
-    double n_captured_this_wmk;
-    double cumulative_volume = zeroth_watermark;
-    double next_cumulative_volume = zeroth_watermark;
-    double volume_top;
-    double frac_exposed_per_volume;
-
-    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
-
-    // Each active watermark
-    for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-        n_captured_this_wmk = 0.0;
-
-        // Total volume at the bottom and top of this watermark
-        cumulative_volume = next_cumulative_volume;
-        next_cumulative_volume += watermark_volumes[i_wmk];
-
-        // Capture up to the cloud volume for the last watermark
-        if (i_wmk == i_wmk_above_cloud) {
-            volume_top = cloud_fractional_volume;
-        }
-        // Capture up to the next watermark for watermarks below the cloud
-        else {
-            volume_top = next_cumulative_volume;
-        }
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Account for non-uniform distribution with volume
-            if (traps[i_trap].fractional_volume_full_exposed == 0.0)
-                frac_exposed_per_volume = 1.0;
-            else
-                frac_exposed_per_volume =
-                    traps[i_trap].fraction_traps_exposed_per_fractional_volume(
-                        cumulative_volume, volume_top);
-
-            n_captured_this_wmk +=
-                (trap_densities[i_trap] - watermark_fills[i_wmk * n_traps + i_trap]) *
-                frac_exposed_per_volume;
-        }
-
-        // Capture from the bottom to the top of the watermark
-        n_captured += n_captured_this_wmk * (volume_top - cumulative_volume);
-    }
-
-    // ========
-    // Update the watermarks
-    // ========
-    // Check enough available electrons to capture
-    //
-    // Would be really nice to do this including the express multiplier.
-    // That would also prevent image pixels from changing sign when zeroth_watermark<0.
-    //
-    double enough = abs(n_free_electrons / n_captured);
-    //print_v(0,"enough %g %g %g\n", enough, n_free_electrons, n_captured);
-
-    // Normal full capture
-    if ( enough >= 1.0) {
-        update_watermarks_capture(cloud_fractional_volume, i_wmk_above_cloud);
-    }
-    // Partial capture
-    else {
-        update_watermarks_capture_not_enough(
-            cloud_fractional_volume, i_wmk_above_cloud, enough);
-
-        n_captured *= enough;
-    }
-
-    return n_captured;
-}
-
-/*
-    Release and capture electrons and update the trap watermarks.
-
-    The interaction between traps and the charge cloud during its dwell time in
-    this pixel (and phase) is modelled as follows:
-    + First the previously filled traps release charge.
-    + This may update the number of free electrons in the cloud that are
-        available for capture.
-    + Then any unfilled traps within the cloud volume capture charge.
-    + In the rare case that not enough electrons are available for capture,
-        all traps within the cloud capture proportionally less charge to match.
-
-    Parameters
-    ----------
-    n_free_electrons : double
-        The number of available electrons for trapping.
-
-    Returns
-    -------
-    n_electrons_released_and_captured : double
-        The number of released electrons.
-
-    Updates
-    -------
-    watermark_volumes, watermark_fills : std::valarray<double>
-        The updated watermarks.
-*/
-double TrapManagerInstantCapture::n_electrons_released_and_captured(
-    double n_free_electrons) {
-
-    //print_v(0, "n_free_electrons  %g \n", n_free_electrons);
-    //if (n_free_electrons < zeroth_watermark) {
-    //    lower_zeroth_watermark(n_free_electrons);
-    //}
-
-    double n_released = n_electrons_released();
-    print_v(2, "n_electrons_released  %g \n", n_released);
-
-    double n_captured = n_electrons_captured(n_free_electrons + n_released);
-    print_v(2, "n_electrons_captured  %g \n", n_captured);
-
-    return n_released - n_captured;
-}
-
-
-
-
-
-
-
-
-
-
-
-
-
-// ========
-// TrapManagerSlowCapture::
-// ========
-/*
-    Class TrapManagerSlowCapture.
-
-    For traps with a non-zero capture time.
-*/
-TrapManagerSlowCapture::TrapManagerSlowCapture(
-    std::valarray<TrapSlowCapture> traps, int max_n_transfers, CCDPhase ccd_phase,
-    double dwell_time)
-    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
-
-    n_traps = traps.size();
-    trap_densities = std::valarray<double>(n_traps);
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        trap_densities[i_trap] = traps[i_trap].density;
-    }
-
-    // Overwrite default parameter values
-    n_watermarks_per_transfer = 2;
-}
-
-/*
-    Set the probabilities of traps being full after release and/or capture.
-
-    See Lindegren (1998) section 3.2.
-
-    Sets
-    ----
-    fill_probabilities_from_empty : std::valarray<double>
-        The fraction of traps that were empty that become full.
-
-    fill_probabilities_from_full : std::valarray<double>
-        The fraction of traps that were full that stay full.
-
-    empty_probabilities_from_release : std::valarray<double>
-        The fraction of traps that were full that become empty after release.
-*/
-void TrapManagerSlowCapture::set_fill_probabilities() {
-    double total_rate, exponential_factor;
-    fill_probabilities_from_empty = std::valarray<double>(0.0, n_traps);
-    fill_probabilities_from_full = std::valarray<double>(0.0, n_traps);
-    empty_probabilities_from_release = std::valarray<double>(0.0, n_traps);
-
-    // Set probabilities for each trap species
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        // Common factors
-        total_rate = traps[i_trap].capture_rate + traps[i_trap].release_rate;
-        exponential_factor = (1 - exp(-total_rate * dwell_time)) / total_rate;
-
-        // Resulting fill fraction for empty traps (Eqn. 20)
-        if (traps[i_trap].capture_rate == 0.0)
-            // Instant capture
-            fill_probabilities_from_empty[i_trap] = 1.0;
-        else
-            fill_probabilities_from_empty[i_trap] =
-                traps[i_trap].capture_rate * exponential_factor;
-
-        // Resulting fill fraction for filled traps (Eqn. 21)
-        fill_probabilities_from_full[i_trap] =
-            1.0 - traps[i_trap].release_rate * exponential_factor;
-
-        // Resulting empty fraction from only release
-        empty_probabilities_from_release[i_trap] =
-            1.0 - exp(-traps[i_trap].release_rate * dwell_time);
-    }
-}
-
-/*
-    Call any necessary initialisation functions, etc.
-*/
-void TrapManagerSlowCapture::setup() {
-    initialise_trap_states();
-    set_fill_probabilities();
-}
-
-/*
-    Same as TrapManagerInstantCapture
-*/
-double TrapManagerSlowCapture::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
-    
-    //print_v(0,"SC child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
-
-    // Fraction of electrons released from each trap species
-    double frac_released_this_wmk = 0.0;
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        // Fraction of released electrons
-        frac_released_this_wmk +=
-            watermark_fills[i_wmk * n_traps + i_trap] *
-            empty_probabilities_from_release[i_trap];
-    }
-
-    // Multiply by the watermark volume
-    return frac_released_this_wmk * watermark_volumes[i_wmk];
-}
-/*
-    Release and capture electrons and update the trap watermarks.
-
-    The interaction between traps and the charge cloud during its dwell time in
-    this pixel (and phase) is modelled as follows:
-    + First any previously filled traps that are not within the cloud volume
-        release charge.
-    + This may update the number of free electrons in the cloud that are
-        available for capture.
-    + Then all traps within the cloud volume release and capture charge.
-    + In the rare case that not enough electrons are available for capture,
-        all traps within the cloud capture proportionally less charge to match.
-
-    Parameters
-    ----------
-    n_free_electrons : double
-        The number of available electrons for trapping.
-
-    Returns
-    -------
-    n_electrons_released_and_captured : double
-        The number of released electrons.
-
-    Updates
-    -------
-    watermark_volumes, watermark_fills : std::valarray<double>
-        The updated watermarks.
-*/
-double TrapManagerSlowCapture::n_electrons_released_and_captured(
-    double n_free_electrons) {
-    // The fractional volume the electron cloud reaches in the pixel well
-    double cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-
-    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
-
-    // Add a new watermark at the cloud height
-    if (cloud_fractional_volume > 0.0) {
-        // First capture
-        if (n_active_watermarks == 0) {
-            // Set fractional volume
-            watermark_volumes[0] = cloud_fractional_volume;
-
-            // Update count of active watermarks
-            n_active_watermarks++;
-        }
-
-        // Cloud above all current watermarks
-        else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
-            double previous_total_volume = 0.0;
-            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-                previous_total_volume += watermark_volumes[i_wmk];
-            }
-
-            // Set fractional volume
-            watermark_volumes[i_wmk_above_cloud] =
-                cloud_fractional_volume - previous_total_volume;
-
-            // Update count of active watermarks
-            n_active_watermarks++;
-        }
-
-        // Cloud between or below current watermarks
-        else {
-            // Original total volume of the to-be-split watermark
-            double previous_total_volume = 0.0;
-            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-                previous_total_volume += watermark_volumes[i_wmk];
-            }
-
-            // Copy-paste all higher watermarks up one to make room
-            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-                 i_wmk >= i_wmk_above_cloud; i_wmk--) {
-                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                        watermark_fills[i_wmk * n_traps + i_trap];
-                }
-            }
-
-            // Update count of active watermarks
-            n_active_watermarks++;
-            i_wmk_above_cloud++;
-
-            // New watermark
-            watermark_volumes[i_wmk_above_cloud - 1] =
-                watermark_volumes[i_wmk_above_cloud] -
-                (previous_total_volume - cloud_fractional_volume);
-
-            // Update fractional volume of the partially overwritten watermark
-            watermark_volumes[i_wmk_above_cloud] =
-                previous_total_volume - cloud_fractional_volume;
-        }
-    }
-
-    // ========
-    // Release electrons from any watermarks above the cloud
-    // ========
-    double n_released = 0.0;
-    double frac_released_this_wmk;
-    double frac_released_this_wmk_this_trap;
-    double cumulative_volume = 0.0;
-    double next_cumulative_volume = 0.0;
-
-    // Count the released electrons and update the watermarks
-    for (int i_wmk = i_wmk_above_cloud;
-         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-        frac_released_this_wmk = 0.0;
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Fraction of released electrons
-            frac_released_this_wmk_this_trap = 
-                watermark_fills[i_wmk * n_traps + i_trap] *
-                empty_probabilities_from_release[i_trap];
-
-            // Update the watermark fill fraction
-            watermark_fills[i_wmk * n_traps + i_trap] -= 
-                frac_released_this_wmk_this_trap;
-            
-            // Keep stock of newly free (fraction of) electrons
-            frac_released_this_wmk += frac_released_this_wmk_this_trap;
-        }
-
-        // Multiply by the watermark volume
-        n_released += frac_released_this_wmk * watermark_volumes[i_wmk];
-    }
-
-    // Update the electron cloud
-    n_free_electrons += n_released;
-    cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-    i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
-
-    // ========
-    // Capture and release electrons below the cloud
-    // ========
-    // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
-
-    // Add a new watermark at the new cloud height
-    if (n_released > 0.0) {
-        // Original total volume of the watermark
-        double previous_total_volume = 0.0;
-        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-            previous_total_volume += watermark_volumes[i_wmk];
-        }
-
-        // Copy-paste any higher watermarks up one to make room
-        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-             i_wmk >= i_wmk_above_cloud; i_wmk--) {
-            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                    watermark_fills[i_wmk * n_traps + i_trap];
-            }
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-        i_wmk_above_cloud++;
-
-        // New watermark
-        watermark_volumes[i_wmk_above_cloud - 1] =
-            watermark_volumes[i_wmk_above_cloud] -
-            (previous_total_volume - cloud_fractional_volume);
-
-        // Update fractional volume of the partially overwritten watermark
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
-    }
-
-    // Release and capture electrons in each watermark below the cloud
-    double n_released_and_captured = 0.0;
-    double n_released_and_captured_this_wmk = 0.0;
-    double new_fill;
-    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-        n_released_and_captured_this_wmk = 0.0;
-
-        // Total volume at the bottom and top of this watermark
-        cumulative_volume = next_cumulative_volume;
-        next_cumulative_volume += watermark_volumes[i_wmk];
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Fraction of full traps that remain full plus fraction of empty
-            // traps that become full
-            new_fill = fill_probabilities_from_full[i_trap] *
-                           watermark_fills[i_wmk * n_traps + i_trap] +
-                       fill_probabilities_from_empty[i_trap] *
-                           (trap_densities[i_trap] -
-                            watermark_fills[i_wmk * n_traps + i_trap]);
-
-            // Net released minus captured electrons
-            n_released_and_captured_this_wmk +=
-                watermark_fills[i_wmk * n_traps + i_trap] - new_fill;
-        }
-
-        // Multiply by the watermark volume
-        n_released_and_captured += n_released_and_captured_this_wmk *
-                                   (next_cumulative_volume - cumulative_volume);
-    }
-
-    // ========
-    // Update the watermarks
-    // ========
-    // Check enough available electrons to capture, if more captured than released
-    double enough;
-    if (n_released_and_captured < 0.0)
-        enough = n_free_electrons / -n_released_and_captured;
-    else
-        enough = 1.0;
-
-    // Update the watermarks for release and capture below the cloud
-    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-        n_released_and_captured_this_wmk = 0.0;
-
-        // Total volume at the bottom and top of this watermark
-        cumulative_volume = next_cumulative_volume;
-        next_cumulative_volume += watermark_volumes[i_wmk];
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Fraction of full traps that remain full plus fraction of empty
-            // traps that become full
-            new_fill = fill_probabilities_from_full[i_trap] *
-                           watermark_fills[i_wmk * n_traps + i_trap] +
-                       fill_probabilities_from_empty[i_trap] *
-                           (trap_densities[i_trap] -
-                            watermark_fills[i_wmk * n_traps + i_trap]);
-
-            // Modify for not-enough capture
-            if (enough < 1.0) {
-                new_fill = enough * new_fill +
-                           (1.0 - enough) * watermark_fills[i_wmk * n_traps + i_trap];
-            }
-
-            // Update watermark fill fractions
-            watermark_fills[i_wmk * n_traps + i_trap] = new_fill;
-        }
-    }
-
-    if (enough < 1.0) n_released_and_captured *= enough;
-
-    return n_released + n_released_and_captured;
-}
-
-
-
-
-
-// ========
-// TrapManagerInstantCaptureContinuum::
-// ========
-/*
-    Class TrapManagerInstantCaptureContinuum.
-
-    For trap species with continous distributions of release timescales, and
-    the standard release-then-instant-capture algorithm.
-
-    For release, the watermark fill fractions are converted into the total time
-    elapsed since the traps were filled in order to update them.
-
-    Capture is identical to instant-capture traps.
-
-    Attributes (in addition to TrapManagerBase)
-    ----------
-    time_min : double
-    time_max : double
-        The minimum and maximum elapsed times to set the interpolation table
-        limits. See prep_fill_fraction_and_time_elapsed_tables().
-
-    n_intp : int
-        The number of interpolation values in the arrays. Currently set here
-        manually. See prep_fill_fraction_and_time_elapsed_tables().
-*/
-TrapManagerInstantCaptureContinuum::TrapManagerInstantCaptureContinuum(
-    std::valarray<TrapInstantCaptureContinuum> traps, int max_n_transfers,
-    CCDPhase ccd_phase, double dwell_time)
-    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
-
-    n_traps = traps.size();
-    trap_densities = std::valarray<double>(n_traps);
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        trap_densities[i_trap] = traps[i_trap].density;
-    }
-
-    time_min = dwell_time;
-    time_max = max_n_transfers * dwell_time;
-    n_intp = 1000;
-}
-
-/*
-    Set the interpolation table values for converting between fill fractions
-    and elapsed times.
-
-    See TrapInstantCaptureContinuum.prep_fill_fraction_and_time_elapsed_tables().
-*/
-void TrapManagerInstantCaptureContinuum::prepare_interpolation_tables() {
-    // Prepare interpolation tables for each trap species
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        traps[i_trap].prep_fill_fraction_and_time_elapsed_tables(
-            time_min, time_max, n_intp);
-    }
-}
-
-/*
-    Call any necessary initialisation functions, etc.
-*/
-void TrapManagerInstantCaptureContinuum::setup() {
-    initialise_trap_states();
-    prepare_interpolation_tables();
-}
-
-/*
-    How many electrons will be released from a watermark above the cloud,
-    during the next timestep.
-
-    Parameters
-    ----------
-    cloud_fractional_volume : double
-        The fractional volume the electron cloud reaches in the pixel well.
-
-    Returns
-    -------
-    i_wmk_above_cloud : int
-        The index of the first active watermark that reaches above the cloud.
-*/
-double TrapManagerInstantCaptureContinuum::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
-    
-//    print_v(0,"ICCR child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
-//    return 0;
-    // Fraction of electrons released from each trap species
-    double frac_released_this_wmk = 0.0;
-    double fill_initial;
-    double time_initial;
-    double fill_final;
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        // Initial fill and conversion to elapsed time
-        fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
-        time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-            fill_initial / trap_densities[i_trap]);
-
-        // New fill fraction from updated elapsed time
-        fill_final = trap_densities[i_trap] *
-            traps[i_trap].fill_fraction_from_time_elapsed_table(
-                time_initial + dwell_time);
-
-        // Number released from difference in fill fractions
-        frac_released_this_wmk += fill_initial - fill_final;
-    }
-
-    // Multiply by the watermark volume
-    return frac_released_this_wmk * watermark_volumes[i_wmk];
-
-}
-/*
-    Same as TrapManagerInstantCapture, except for the conversion between fill
-    fractions and elapsed times to update the trap states.
-*/
-double TrapManagerInstantCaptureContinuum::n_electrons_released() {
-    double n_released = 0.0;
-    double n_released_this_wmk;
-    double fill_initial;
-    double time_initial;
-
-    // Each active watermark
-    for (int i_wmk = i_first_active_wmk;
-         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-        n_released_this_wmk = 0.0;
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Initial fill and conversion to elapsed time
-            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
-            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-                fill_initial / trap_densities[i_trap]);
-
-            // New fill fraction from updated elapsed time
-            watermark_fills[i_wmk * n_traps + i_trap] =
-                trap_densities[i_trap] *
-                traps[i_trap].fill_fraction_from_time_elapsed_table(
-                    time_initial + dwell_time);
-
-            // Number released from difference in fill fractions
-            n_released_this_wmk +=
-                fill_initial - watermark_fills[i_wmk * n_traps + i_trap];
-        }
-
-        // Multiply by the watermark volume
-        n_released += n_released_this_wmk * watermark_volumes[i_wmk];
-    }
-
-    return n_released;
-}
-
-/*
-    Same as TrapManagerInstantCapture.
-*/
-void TrapManagerInstantCaptureContinuum::update_watermarks_capture(
-    double cloud_fractional_volume, int i_wmk_above_cloud) {
-    // First capture
-    if (n_active_watermarks == 0) {
-        // Set fractional volume
-        watermark_volumes[0] = cloud_fractional_volume;
-
-        // Set fill fractions for all trap species
-        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities;
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    // Cloud below all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk) {
-        // Make room for the new lowest watermark
-        if (i_first_active_wmk > 0) {
-            // Use existing room below the current first active watermark
-            i_first_active_wmk--;
-        } else {
-            // Copy-paste all higher watermarks up one to make room
-            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-                 i_wmk >= i_first_active_wmk; i_wmk--) {
-                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                        watermark_fills[i_wmk * n_traps + i_trap];
-                }
-            }
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-
-        // New watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            trap_densities;
-
-        // Update fractional volume of the partially overwritten watermark above
-        watermark_volumes[i_first_active_wmk + 1] -= cloud_fractional_volume;
-    }
-
-    // Cloud above all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
-        // Skip all overwritten watermarks
-        i_first_active_wmk = i_wmk_above_cloud - 1;
-
-        // New first watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            trap_densities;
-
-        // Update count of active watermarks
-        n_active_watermarks = 1;
-    }
-
-    // Cloud between current watermarks
-    else {
-        // Update fractional volume of the partially overwritten watermark
-        double previous_total_volume = 0.0;
-        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-            previous_total_volume += watermark_volumes[i_wmk];
-        }
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
-
-        // Update count of active watermarks
-        n_active_watermarks += i_first_active_wmk - i_wmk_above_cloud + 1;
-
-        // Skip all overwritten watermarks
-        i_first_active_wmk = i_wmk_above_cloud - 1;
-
-        // New first watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            trap_densities;
-    }
-
-    return;
-}
-
-/*
-    Same as TrapManagerInstantCapture.
-*/
-void TrapManagerInstantCaptureContinuum::update_watermarks_capture_not_enough(
-    double cloud_fractional_volume, int i_wmk_above_cloud, double enough) {
-    // First capture
-    if (n_active_watermarks == 0) {
-        // Set fractional volume
-        watermark_volumes[0] = cloud_fractional_volume;
-
-        // Set fill fractions for all trap species
-        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities * enough;
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    // Cloud below all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk) {
-        // Make room for the new lowest watermark
-        if (i_first_active_wmk > 0) {
-            // Use existing room below the current first active watermark
-            i_first_active_wmk--;
-        } else {
-            // Copy-paste all higher watermarks up one to make room
-            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-                 i_wmk >= i_first_active_wmk; i_wmk--) {
-                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                        watermark_fills[i_wmk * n_traps + i_trap];
-                }
-            }
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-
-        // New watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            (std::valarray<double>)watermark_fills[std::slice(
-                i_first_active_wmk * n_traps, n_traps, 1)] *
-                (1.0 - enough) +
-            enough * trap_densities;
-
-        // Update fractional volume of the partially overwritten watermark above
-        watermark_volumes[i_first_active_wmk + 1] -= cloud_fractional_volume;
-    }
-
-    // Cloud above all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
-        // Cumulative volume of the watermark just below the new one
-        double volume_below = 0.0;
-        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-            volume_below += watermark_volumes[i_wmk];
-        }
-
-        // New watermark
-        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
-        watermark_fills[std::slice(
-            (i_first_active_wmk + n_active_watermarks) * n_traps, n_traps, 1)] =
-            enough * trap_densities;
-
-        // Update all other watermarks part-way to full
-        for (int i_wmk = i_first_active_wmk;
-             i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
-                (std::valarray<double>)
-                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
-                    (1.0 - enough) +
-                enough * trap_densities;
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    // Cloud between current watermarks
-    else {
-        // Copy-paste all higher watermarks up one to make room
-        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-             i_wmk >= i_wmk_above_cloud; i_wmk--) {
-            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                    watermark_fills[i_wmk * n_traps + i_trap];
-            }
-        }
-
-        // Cumulative volume of the watermark just below the new one
-        double volume_below = 0.0;
-        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-            volume_below += watermark_volumes[i_wmk];
-        }
-
-        // New watermark
-        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
-
-        // Update volume of the partially overwritten watermark
-        watermark_volumes[i_wmk_above_cloud + 1] -=
-            watermark_volumes[i_wmk_above_cloud];
-
-        // Update all watermarks, including the new one, part-way to full
-        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
-                (std::valarray<double>)
-                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
-                    (1.0 - enough) +
-                enough * trap_densities;
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    return;
-}
-
-/*
-    Same as TrapManagerInstantCapture.
-*/
-double TrapManagerInstantCaptureContinuum::n_electrons_captured(
-    double n_free_electrons) {
-    // The fractional volume the electron cloud reaches in the pixel well
-    double cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-
-    // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
-
-    // ========
-    // Count the number of electrons that can be captured by each watermark
-    // ========
-    double n_captured = 0.0;
-    double n_captured_this_wmk;
-    double cumulative_volume = 0.0;
-    double next_cumulative_volume = 0.0;
-
-    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
-
-    // Each active watermark
-    for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-        n_captured_this_wmk = 0.0;
-
-        // Total volume at the bottom and top of this watermark
-        cumulative_volume = next_cumulative_volume;
-        next_cumulative_volume += watermark_volumes[i_wmk];
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            n_captured_this_wmk +=
-                trap_densities[i_trap] - watermark_fills[i_wmk * n_traps + i_trap];
-        }
-
-        // Capture from the bottom of the last watermark up to the cloud volume
-        if (i_wmk == i_wmk_above_cloud) {
-            n_captured +=
-                n_captured_this_wmk * (cloud_fractional_volume - cumulative_volume);
-        }
-        // Capture from the bottom to top of watermark volumes below the cloud
-        else {
-            n_captured +=
-                n_captured_this_wmk * (next_cumulative_volume - cumulative_volume);
-        }
-    }
-
-    // ========
-    // Update the watermarks
-    // ========
-    // Check enough available electrons to capture
-    double enough = n_free_electrons / n_captured;
-
-    // Normal full capture
-    if (enough >= 1.0) {
-        update_watermarks_capture(cloud_fractional_volume, i_wmk_above_cloud);
-    }
-    // Partial capture
-    else {
-        update_watermarks_capture_not_enough(
-            cloud_fractional_volume, i_wmk_above_cloud, enough);
-
-        n_captured *= enough;
-    }
-
-    return n_captured;
-}
-
-/*
-    Same as TrapManagerInstantCapture.
-*/
-double TrapManagerInstantCaptureContinuum::n_electrons_released_and_captured(
-    double n_free_electrons) {
-
-    double n_released = n_electrons_released();
-    print_v(2, "n_electrons_released  %g \n", n_released);
-
-    double n_captured = n_electrons_captured(n_free_electrons + n_released);
-    print_v(2, "n_electrons_captured  %g \n", n_captured);
-
-    return n_released - n_captured;
-}
-
-
-
-
-// ========
-// TrapManagerSlowCaptureContinuum::
-// ========
-/*
-    Class TrapManagerSlowCaptureContinuum.
-
-    For traps with a non-instant capture time and a continuum (log-normal
-    distribution) of release timescales.
-
-    Attributes (where different to TrapManagerInstantCaptureContinuum)
-    ----------
-    time_min : double
-        Unlike instant capture, need a much smaller minimum time so that the
-        interpolation tables cover the not-completely-filled traps from capture.
-*/
-TrapManagerSlowCaptureContinuum::TrapManagerSlowCaptureContinuum(
-    std::valarray<TrapSlowCaptureContinuum> traps, int max_n_transfers,
-    CCDPhase ccd_phase, double dwell_time)
-    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
-
-    n_traps = traps.size();
-    trap_densities = std::valarray<double>(n_traps);
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        trap_densities[i_trap] = traps[i_trap].density;
-    }
-
-    time_min = dwell_time / 30;
-    time_max = max_n_transfers * dwell_time;
-    n_intp = 1000;
-
-    // Overwrite default parameter values
-    n_watermarks_per_transfer = 2;
-}
-
-/*
-    Set the interpolation table values for converting between fill fractions
-    and elapsed times.
-
-    See TrapManagerSlowCaptureContinuum.prep_fill_fraction_and_time_elapsed_tables()
-    and prep_fill_fraction_after_slow_capture_tables().
-*/
-void TrapManagerSlowCaptureContinuum::prepare_interpolation_tables() {
-    // Prepare interpolation tables for each trap species
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        traps[i_trap].prep_fill_fraction_and_time_elapsed_tables(
-            time_min, time_max, n_intp);
-        traps[i_trap].prep_fill_fraction_after_slow_capture_tables(
-            dwell_time, time_min, time_max, n_intp);
-    }
-}
-
-/*
-    Call any necessary initialisation functions, etc.
-*/
-void TrapManagerSlowCaptureContinuum::setup() {
-    initialise_trap_states();
-    prepare_interpolation_tables();
-}
-
-/*
-    Same as InstantCaptureContinuum
-*/
-double TrapManagerSlowCaptureContinuum::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
-    
-    //print_v(0,"SCCR child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
-    
-    // Fraction of electrons released from each trap species
-    double frac_released_this_wmk = 0.0;
-    double fill_initial;
-    double time_initial;
-    double fill_final;
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        // Initial fill and conversion to elapsed time
-        fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
-        time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-            fill_initial / trap_densities[i_trap]);
-
-        // New fill fraction from updated elapsed time
-        fill_final = trap_densities[i_trap] *
-            traps[i_trap].fill_fraction_from_time_elapsed_table(
-                time_initial + dwell_time);
-
-        // Number released from difference in fill fractions
-        frac_released_this_wmk += fill_initial - fill_final;
-    }
-
-    // Multiply by the watermark volume
-    return frac_released_this_wmk * watermark_volumes[i_wmk];
-}
-/*
-    Same as TrapManagerSlowCapture, except for the conversion between fill
-    fractions and elapsed times to update the trap states.
-*/
-double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
-    double n_free_electrons) {
-    // The fractional volume the electron cloud reaches in the pixel well
-    double cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-
-    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
-
-    // Add a new watermark at the cloud height
-    if (cloud_fractional_volume > 0.0) {
-        // First capture
-        if (n_active_watermarks == 0) {
-            // Set fractional volume
-            watermark_volumes[0] = cloud_fractional_volume;
-
-            // Update count of active watermarks
-            n_active_watermarks++;
-        }
-
-        // Cloud above all current watermarks
-        else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
-            double previous_total_volume = 0.0;
-            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-                previous_total_volume += watermark_volumes[i_wmk];
-            }
-
-            // Set fractional volume
-            watermark_volumes[i_wmk_above_cloud] =
-                cloud_fractional_volume - previous_total_volume;
-
-            // Update count of active watermarks
-            n_active_watermarks++;
-        }
-
-        // Cloud between or below current watermarks
-        else {
-            // Original total volume of the to-be-split watermark
-            double previous_total_volume = 0.0;
-            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-                previous_total_volume += watermark_volumes[i_wmk];
-            }
-
-            // Copy-paste all higher watermarks up one to make room
-            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-                 i_wmk >= i_wmk_above_cloud; i_wmk--) {
-                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                        watermark_fills[i_wmk * n_traps + i_trap];
-                }
-            }
-
-            // Update count of active watermarks
-            n_active_watermarks++;
-            i_wmk_above_cloud++;
-
-            // New watermark
-            watermark_volumes[i_wmk_above_cloud - 1] =
-                watermark_volumes[i_wmk_above_cloud] -
-                (previous_total_volume - cloud_fractional_volume);
-
-            // Update fractional volume of the partially overwritten watermark
-            watermark_volumes[i_wmk_above_cloud] =
-                previous_total_volume - cloud_fractional_volume;
-        }
-    }
-
-    // ========
-    // Release electrons from any watermarks above the cloud
-    // ========
-    double n_released = 0.0;
-    double n_released_this_wmk = 0.0;
-    double fill_initial;
-    double time_initial;
-    double cumulative_volume = 0.0;
-    double next_cumulative_volume = 0.0;
-
-    // Count the released electrons and update the watermarks
-    // Same as TrapManagerInstantCaptureContinuum.n_electrons_released()
-    for (int i_wmk = i_wmk_above_cloud;
-         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-        n_released_this_wmk = 0.0;
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Initial fill and conversion to elapsed time
-            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
-            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-                fill_initial / trap_densities[i_trap]);
-
-            // New fill fraction from updated elapsed time
-            watermark_fills[i_wmk * n_traps + i_trap] =
-                trap_densities[i_trap] *
-                traps[i_trap].fill_fraction_from_time_elapsed_table(
-                    time_initial + dwell_time);
-
-            // Number released from difference in fill fractions
-            n_released_this_wmk +=
-                fill_initial - watermark_fills[i_wmk * n_traps + i_trap];
-        }
-
-        // Multiply by the watermark volume
-        n_released += n_released_this_wmk * watermark_volumes[i_wmk];
-    }
-
-    // Update the electron cloud
-    n_free_electrons += n_released;
-    cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-    i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
-
-    // ========
-    // Capture and release electrons below the cloud
-    // ========
-    // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
-
-    // Add a new watermark at the new cloud height
-    if (n_released > 0.0) {
-        // Original total volume of the watermark
-        double previous_total_volume = 0.0;
-        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-            previous_total_volume += watermark_volumes[i_wmk];
-        }
-
-        // Copy-paste any higher watermarks up one to make room
-        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-             i_wmk >= i_wmk_above_cloud; i_wmk--) {
-            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                    watermark_fills[i_wmk * n_traps + i_trap];
-            }
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-        i_wmk_above_cloud++;
-
-        // New watermark
-        watermark_volumes[i_wmk_above_cloud - 1] =
-            watermark_volumes[i_wmk_above_cloud] -
-            (previous_total_volume - cloud_fractional_volume);
-
-        // Update fractional volume of the partially overwritten watermark
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
-    }
-
-    // Release and capture electrons in each watermark below the cloud
-    double n_released_and_captured = 0.0;
-    double n_released_and_captured_this_wmk = 0.0;
-    double new_fill;
-    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-        n_released_and_captured_this_wmk = 0.0;
-
-        // Total volume at the bottom and top of this watermark
-        cumulative_volume = next_cumulative_volume;
-        next_cumulative_volume += watermark_volumes[i_wmk];
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Initial fill and conversion to elapsed time
-            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
-            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-                fill_initial / trap_densities[i_trap]);
-
-            // Integrate over the fraction of full traps that remain full plus
-            // fraction of empty traps that become full over the distribution
-            new_fill =
-                traps[i_trap].fill_fraction_after_slow_capture_table(time_initial);
-
-            // Include the trap density
-            new_fill *= trap_densities[i_trap];
-
-            // Net released minus captured electrons
-            n_released_and_captured_this_wmk +=
-                watermark_fills[i_wmk * n_traps + i_trap] - new_fill;
-        }
-
-        // Multiply by the watermark volume
-        n_released_and_captured += n_released_and_captured_this_wmk *
-                                   (next_cumulative_volume - cumulative_volume);
-    }
-
-    // ========
-    // Update the watermarks
-    // ========
-    // Check enough available electrons to capture, if more captured than released
-    double enough;
-    if (n_released_and_captured < 0.0)
-        enough = n_free_electrons / -n_released_and_captured;
-    else
-        enough = 1.0;
-
-    // Update the watermarks for release and capture below the cloud
-    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-        n_released_and_captured_this_wmk = 0.0;
-
-        // Total volume at the bottom and top of this watermark
-        cumulative_volume = next_cumulative_volume;
-        next_cumulative_volume += watermark_volumes[i_wmk];
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Initial fill and conversion to elapsed time
-            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
-            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-                fill_initial / trap_densities[i_trap]);
-
-            // Integrate over the fraction of full traps that remain full plus
-            // fraction of empty traps that become full over the distribution
-            new_fill =
-                traps[i_trap].fill_fraction_after_slow_capture_table(time_initial);
-
-            // Include the trap density
-            new_fill *= trap_densities[i_trap];
-
-            // Modify for not-enough capture
-            if (enough < 1.0) {
-                new_fill = enough * new_fill +
-                           (1.0 - enough) * watermark_fills[i_wmk * n_traps + i_trap];
-            }
-
-            // Update watermark fill fractions
-            watermark_fills[i_wmk * n_traps + i_trap] = new_fill;
-        }
-    }
-
-    if (enough < 1.0) n_released_and_captured *= enough;
-
-    return n_released + n_released_and_captured;
-}
-
-// ========
-// TrapManagerManager::
-// ========
-/*
-    Class TrapManagerManager.
-
-    Handles the one or multiple trap managers required for models with a mix of
-    trap species and/or multiphase clocking.
-
-    Each individual trap manager tracks the states of one or more trap species.
-    A different trap manager is required for any traps of different types, and
-    separate trap managers are also required for each phase in multiphase
-    clocking, which corresponds to an independent population of traps.
-
-    On declaration, automatically creates the trap managers for each phase
-    and/or watermark type and initialises their watermark arrays. The trap
-    managers of each type are held in the trap_managers_* arrays, each
-    containing one manager of that type for each phase.
-
-    Also, if relevant, modifies the trap managers' trap densities to account for
-    the fraction of traps in different CCD pixel phases.
-
-    Parameters
-    ----------
-    traps_ic : std::valarray<TrapInstantCapture>
-    traps_sc : std::valarray<TrapSlowCapture>
-    traps_ic_co : std::valarray<TrapInstantCaptureContinuum>
-    traps_sc_co : std::valarray<TrapSlowCaptureContinuum>
-        The arrays of trap species, one for each type (which can be empty).
-
-    max_n_transfers : int
-        Same as TrapManagerBase. Is modified internally to include any extra
-        intra-pixel transfers for multiphase clocking.
-
-    ccd : CCD
-        Parameters to describe how electrons fill the volume inside (all phases
-        of) a pixel in a CCD detector.
-
-    dwell_times : std::valarray<double>
-        The time between steps in the clocking sequence, as stored by an ROE
-        object.
-
-        Note: currently assumes the dwell time in each phase is the same for all
-        steps, which might not be true in sequences with n_steps > n_phases.
-
-    Attributes
-    ----------
-    n_traps_ic : int
-    n_traps_sc : int
-    n_traps_ic_co : int
-    n_traps_sc_co : int
-        The number of trap species (if any) of each watermark type.
-
-    trap_managers_ic : std::valarray<TrapManagerInstantCapture>
-    trap_managers_sc : std::valarray<TrapManagerSlowCapture>
-    trap_managers_ic_co : std::valarray<TrapManagerInstantCaptureContinuum>
-    trap_managers_sc_co :
-   std::valarray<TrapManagerSlowCaptureContinuum> For each watermark type, the list of
-   trap manager objects for each phase. Ignored if the corresponding n_*_traps is 0.
-*/
-TrapManagerManager::TrapManagerManager(
-    std::valarray<TrapInstantCapture>& traps_ic,
-    std::valarray<TrapSlowCapture>& traps_sc,
-    std::valarray<TrapInstantCaptureContinuum>& traps_ic_co,
-    std::valarray<TrapSlowCaptureContinuum>& traps_sc_co, int max_n_transfers, CCD ccd,
-    std::valarray<double>& dwell_times)
-    : traps_ic(traps_ic),
-      traps_sc(traps_sc),
-      traps_ic_co(traps_ic_co),
-      traps_sc_co(traps_sc_co),
-      max_n_transfers(max_n_transfers),
-      ccd(ccd) {
-
-    // The number of trap species (if any) of each watermark type
-    n_traps_ic = traps_ic.size();
-    n_traps_sc = traps_sc.size();
-    n_traps_ic_co = traps_ic_co.size();
-    n_traps_sc_co = traps_sc_co.size();
-
-    // Account for the number of clock-sequence steps for the maximum transfers
-    max_n_transfers *= dwell_times.size();
-    this->max_n_transfers = max_n_transfers;
-
-    // ========
-    // Set up the trap manager for each phase, for each watermark type
-    // ========
-    if (n_traps_ic > 0) {
-        trap_managers_ic.resize(ccd.n_phases);
-
-        // Initialise manager and watermarks for each phase
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic[phase_index] = TrapManagerInstantCapture(
-                traps_ic, max_n_transfers, ccd.phases[phase_index],
-                dwell_times[phase_index]);
-
-            // Modify the trap densities in different phases
-            trap_managers_ic[phase_index].trap_densities *=
-                ccd.fraction_of_traps_per_phase[phase_index];
-
-            trap_managers_ic[phase_index].setup();
-        }
-    }
-
-    if (n_traps_sc > 0) {
-        trap_managers_sc.resize(ccd.n_phases);
-
-        // Initialise manager and watermarks for each phase
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc[phase_index] = TrapManagerSlowCapture(
-                traps_sc, max_n_transfers, ccd.phases[phase_index],
-                dwell_times[phase_index]);
-
-            // Modify the trap densities in different phases
-            trap_managers_sc[phase_index].trap_densities *=
-                ccd.fraction_of_traps_per_phase[phase_index];
-
-            trap_managers_sc[phase_index].setup();
-        }
-    }
-
-    if (n_traps_ic_co > 0) {
-        trap_managers_ic_co.resize(ccd.n_phases);
-
-        // Initialise manager and watermarks for each phase
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic_co[phase_index] = TrapManagerInstantCaptureContinuum(
-                traps_ic_co, max_n_transfers, ccd.phases[phase_index],
-                dwell_times[phase_index]);
-
-            // Modify the trap densities in different phases
-            trap_managers_ic_co[phase_index].trap_densities *=
-                ccd.fraction_of_traps_per_phase[phase_index];
-
-            trap_managers_ic_co[phase_index].setup();
-        }
-    }
-
-    if (n_traps_sc_co > 0) {
-        trap_managers_sc_co.resize(ccd.n_phases);
-
-        // Initialise manager and watermarks for each phase
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc_co[phase_index] = TrapManagerSlowCaptureContinuum(
-                traps_sc_co, max_n_transfers, ccd.phases[phase_index],
-                dwell_times[phase_index]);
-
-            // Modify the trap densities in different phases
-            trap_managers_sc_co[phase_index].trap_densities *=
-                ccd.fraction_of_traps_per_phase[phase_index];
-
-            trap_managers_sc_co[phase_index].setup();
-        }
-    }
-}
-
-/*
-    Reset the watermark arrays to empty, for all trap managers.
-*/
-void TrapManagerManager::reset_trap_states() {
-    if (n_traps_ic > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic[phase_index].reset_trap_states();
-        }
-    if (n_traps_sc > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc[phase_index].reset_trap_states();
-        }
-    if (n_traps_ic_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic_co[phase_index].reset_trap_states();
-        }
-    if (n_traps_sc_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc_co[phase_index].reset_trap_states();
-        }
-}
-
-/*
-    Store the watermark arrays to be loaded again later, for all trap managers.
-*/
-void TrapManagerManager::store_trap_states() {
-    if (n_traps_ic > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic[phase_index].store_trap_states();
-        }
-    if (n_traps_sc > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc[phase_index].store_trap_states();
-        }
-    if (n_traps_ic_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic_co[phase_index].store_trap_states();
-        }
-    if (n_traps_sc_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc_co[phase_index].store_trap_states();
-        }
-}
-
-/*
-    Restore the watermark arrays to their saved values, for all trap managers.
-*/
-void TrapManagerManager::restore_trap_states() {
-    if (n_traps_ic > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic[phase_index].restore_trap_states();
-        }
-    if (n_traps_sc > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc[phase_index].restore_trap_states();
-        }
-    if (n_traps_ic_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic_co[phase_index].restore_trap_states();
-        }
-    if (n_traps_sc_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc_co[phase_index].restore_trap_states();
-        }
-}
-
-/*
-    Prune redundant watermarks from watermark arrays, for all trap managers.
-*/
-void TrapManagerManager::prune_watermarks(double min_n_electrons) {
-    //print_v(0,"IC traps\n");
-    if (n_traps_ic > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic[phase_index].prune_watermarks(min_n_electrons);
-        }
-    //print_v(0,"SC traps\n");
-    if (n_traps_sc > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc[phase_index].prune_watermarks(min_n_electrons);
-        }
-    //print_v(0,"ICCR traps\n");
-    if (n_traps_ic_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic_co[phase_index].prune_watermarks(min_n_electrons);
-        }
-    //print_v(0,"SCCR traps\n");
-    if (n_traps_sc_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc_co[phase_index].prune_watermarks(min_n_electrons);
-        }
-}
+
+#include "trap_managers.hpp"
+
+#include <math.h>
+#include <stdio.h>
+
+#include <valarray>
+
+#include "ccd.hpp"
+#include "traps.hpp"
+#include "util.hpp"
+#include <iostream>
+
+// ========
+// TrapManagerBase::
+// ========
+/*
+    Class TrapManagerBase.
+
+    Abstract base class for the trap manager of one or multiple trap species
+    that are able to use watermarks in the same way as each other.
+
+    Parameters
+    ----------
+    traps : std::valarray<Trap>
+        A list of one or more trap species of the specific trap manager's type.
+
+        Not included in this base class, since the different managers require
+        different class types for the array.
+
+    max_n_transfers : int
+        The number of pixel transfers containing traps that charge will be
+        expected to go through. This feeds in to the maximum number of possible
+        capture/release events that could create new watermark levels, and is
+        used to initialise the watermark array to be only as large as needed.
+
+    ccd_phase : CCDPhase
+        Parameters to describe how electrons fill the volume inside (one phase
+        of) a pixel in a CCD detector.
+
+    dwell_time : double
+        The time spent in this pixel or phase, in the same units as the trap
+        timescales.
+
+    Attributes
+    ----------
+    n_traps : int
+        The number of trap species.
+
+    trap_densities : std::valarray<double>
+        The density of each trap species.
+
+    watermark_volumes : std::valarray<double>
+        Array of watermark fractional volumes to describe the trap states, i.e.
+        the proportion of the pixel volume occupied by each (active) watermark.
+
+    watermark_fills : std::valarray<double>
+        2D-style 1D array of watermark fill fractions to describe the trap
+        states, i.e. the proportion of traps that are filled in each (active)
+        watermark, multiplied by the trap's density, for each trap species.
+
+        Examples of slicing the arrays:
+            The ith watermark, jth trap fill:
+                watermark_fills[ i * n_traps + j ]
+
+            The ith watermark "row" of the fills:
+                watermark_fills[ std::slice(i * n_traps, n_traps, 1) ]
+
+            The ith trap species "column" of the fills:
+                watermark_fills[ std::slice(i, n_watermarks, n_traps) ]
+
+            The ith-to-jth watermark slices of the volumes and (all) the fills:
+                watermark_volumes[ std::slice(i, j - i, 1) ]
+                watermark_fills[ std::slice(i * n_traps, (j - i) * n_traps, 1) ]
+
+    empty_watermark : double
+        The watermark fill value corresponding to empty traps.
+
+    zeroth_watermark : double
+        The lowest watermark height value yet considered.
+
+    n_active_watermarks : int
+        The number of currently active watermark levels.
+
+    i_first_active_wmk : int
+        The index of the first active watermark. The effective starting point
+        for the active region of the watermark arrays. i.e. watermark levels
+        below this are ignored because they've been superseded.
+
+        This is primarily used by instant-capture traps where a charge cloud
+        will entirely fill all traps below it, making any pre-existing lower
+        watermarks no longer necessary to track.
+
+    n_watermarks_per_transfer : int
+        The number of new watermarks that could be made in each transfer.
+
+    n_watermarks : int
+        The total number of available watermark levels, determined by the number
+        of potential watermark-creating transfers and the watermarking scheme.
+*/
+TrapManagerBase::TrapManagerBase(
+    int max_n_transfers, CCDPhase ccd_phase, double dwell_time)
+    : max_n_transfers(max_n_transfers), ccd_phase(ccd_phase), dwell_time(dwell_time) {
+
+    empty_watermark = 0.0;
+    zeroth_watermark = 0.0;
+    n_active_watermarks = 0;
+    i_first_active_wmk = 0;
+    n_watermarks_per_transfer = 1;
+}
+
+/*
+    Initialise the watermark arrays.
+
+    Sets
+    ----
+    n_watermarks : int
+        The total number of available watermarks.
+
+    watermark_volumes, watermark_fills : std::valarray<double>
+        The initial empty watermark arrays.
+*/
+void TrapManagerBase::initialise_trap_states() {
+    n_watermarks = max_n_transfers * n_watermarks_per_transfer + 1;
+
+    watermark_volumes = std::valarray<double>(zeroth_watermark, n_watermarks);
+    watermark_fills = std::valarray<double>(empty_watermark, n_traps * n_watermarks);
+    //empty_probabilities_from_release = std::valarray<double>(0.0, n_traps);
+    
+    // Initialise the stored trap states too
+    store_trap_states();
+}
+
+/*
+    Reset the watermark arrays to empty.
+*/
+void TrapManagerBase::reset_trap_states() {
+    n_active_watermarks = 0;
+    i_first_active_wmk = 0;
+    watermark_volumes = zeroth_watermark;
+    watermark_fills = empty_watermark;
+}
+
+/*
+    Store the watermark arrays to be loaded again later.
+*/
+void TrapManagerBase::store_trap_states() {
+    stored_n_active_watermarks = n_active_watermarks;
+    stored_i_first_active_wmk = i_first_active_wmk;
+    stored_watermark_volumes = watermark_volumes;
+    stored_watermark_fills = watermark_fills;
+}
+
+/*
+    Restore the watermark arrays to their saved values.
+*/
+void TrapManagerBase::restore_trap_states() {
+    n_active_watermarks = stored_n_active_watermarks;
+    i_first_active_wmk = stored_i_first_active_wmk;
+    watermark_volumes = stored_watermark_volumes;
+    watermark_fills = stored_watermark_fills;
+}
+
+/*
+    Call any necessary initialisation functions, etc.
+*/
+void TrapManagerBase::setup() { initialise_trap_states(); }
+
+/*
+    Report the number of electrons currently held in all traps
+    within a single watermark.
+
+    Returns
+    -------
+    n_trapped_electrons_per_watermark : std::valarray<double>
+        The total number of electrons (summed over different species of 
+        traps) stored in a particular watermark.
+*/
+double TrapManagerBase::n_trapped_electrons_in_watermark(int i_wmk) {
+
+    // Fill fraction * trap density (an array for each trap species)
+    std::valarray<double> fill_fractions_in_this_wmk =
+        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
+    // Multiplied by volume
+    double n_trapped_electrons_in_this_wmk = 
+        fill_fractions_in_this_wmk.sum() * watermark_volumes[i_wmk];
+
+    return n_trapped_electrons_in_this_wmk;
+}
+
+/*
+    Report the number of electrons currently held in all traps.
+
+    Returns
+    -------
+    n_trapped_electrons_per_watermark : std::valarray<double>
+        The total number of electrons (summed over different species of 
+        traps) stored in all watermarks.
+*/
+std::valarray<double> TrapManagerBase::n_trapped_electrons_per_watermark() {
+
+    // Count the total number of electrons in each active watermark
+    std::valarray<double> fill_fractions_this_wmk(n_traps);
+    std::valarray<double> n_trapped_electrons_per_wmk(n_watermarks);
+    double n_trapped_electrons_in_total = 0;
+    double highest_watermark = 0;
+
+
+    for (int i_wmk = i_first_active_wmk;
+        i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+
+        // Extract the fill fractions in a 1D array
+        fill_fractions_this_wmk =
+            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
+        // Sum the fill fractions and multiply by the fractional volume
+        n_trapped_electrons_per_wmk[i_wmk] = 
+            fill_fractions_this_wmk.sum() * watermark_volumes[i_wmk];
+                
+        //print_v(0,"watermArk: %d volume: %g fill: %g n_electrons: %g n_traps: %d \n", 
+        //    i_wmk,watermark_volumes[i_wmk],
+        //    fill_fractions_this_wmk.sum(),
+        //    n_trapped_electrons_per_wmk[i_wmk],n_traps);
+
+    }
+    //print_v(0,"Total n_electrons %16.12g, highest watermark %16.12g\n",n_trapped_electrons_in_total,highest_watermark);
+
+    return n_trapped_electrons_per_wmk;
+}
+double TrapManagerBase::n_trapped_electrons_total() {
+
+    // No watermarks
+    if (n_active_watermarks == 0) return 0.0;
+    
+    // Sum over all watermarks
+    double n_trapped_electrons = (n_trapped_electrons_per_watermark()).sum();
+
+    return n_trapped_electrons;
+}
+
+
+
+/*
+    Sum the total number of electrons currently held in traps.
+
+    Parameters
+    ----------
+    wmk_volumes, wmk_fills : std::valarray<double>
+        The watermark arrays.
+
+    Returns
+    -------
+    n_trapped_electrons : double
+        The number of electrons stored in traps.
+*/
+double TrapManagerBase::n_trapped_electrons_from_watermarks(
+    std::valarray<double> wmk_volumes, std::valarray<double> wmk_fills) {
+
+    // No watermarks
+    if (n_active_watermarks == 0) return 0.0;
+
+    double n_trapped_electrons_total = 0.0;
+    std::valarray<double> n_trapped_electrons_this_wmk(n_traps);
+
+    // Each active watermark
+    for (int i_wmk = i_first_active_wmk;
+         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+        // Extract the fill fractions in a 1D array
+        n_trapped_electrons_this_wmk =
+            wmk_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
+
+        // Sum the fill fractions and multiply by the fractional volume
+        n_trapped_electrons_total += n_trapped_electrons_this_wmk.sum() * wmk_volumes[i_wmk];
+    }
+
+    return n_trapped_electrons_total;
+}
+
+
+
+/*
+    Reduce the value of the lowest watermark ever seen. It starts at zero, so this
+    function is only activated if the image contains negative pixels. 
+
+    Parameters
+    ----------
+    cloud_fractional_volume : double
+        The fractional volume the electron cloud reaches in the pixel well.
+
+    Returns
+    -------
+    i_wmk_above_cloud : int
+        The index of the first active watermark that reaches above the cloud.
+*/
+void TrapManagerBase::lower_zeroth_watermark(double n_free_electrons) {
+    //zeroth_watermark = n_free_electrons;
+}
+
+
+
+/*
+    Remove watermarks containing very low numbers of electrons, for speed later.
+    
+    To remove watermark i that contains Ni electrons in volume Vi,
+    we push all those electrons down to the next lower watermark b such that
+      Vb' = Vb + Vb Ni/Nb
+      fb' = fb
+      Nb' = Nb + Ni   ( = Vb' * fb' )
+    and increase the volume of the watermark above such that
+      Va' = Va + Vi - Vb Ni/Nb
+      fa' = fa * Va/Va'
+      Na' = Na        ( = Va' * fa' )
+    
+    Parameters
+    ----------
+    min_n_electrons : double Default [0] i.e. do nothing
+        If this is positive...
+        If a watermark contains fewer than this number of electrons, it will be
+        dissolved.
+        If this is negative...
+        If a watermark will release fewer than this number of electrons in the next
+        time setp, it will be dissolved.
+*/
+void TrapManagerBase::prune_watermarks(double min_n_electrons) {
+
+    
+
+    // With only one watermark, not much can be done
+    if (n_active_watermarks <= 1) return; // Cannot prune if there is only a trunk
+    if (n_trapped_electrons_in_watermark(i_first_active_wmk) <= 0) return; // Something has gone wrong to get here
+    print_v(3, "prune watermarks continaing fewer than %g electrons. Watermarks: %d %d\n", min_n_electrons, i_first_active_wmk, n_active_watermarks);
+
+    // Count the total number of electrons in each watermark
+    print_v(3,"\n\n Fill fractions before prune (first %d n %d)\n",i_first_active_wmk, n_active_watermarks);
+    std::valarray<double> n_trapped_electrons_per_wmk = n_trapped_electrons_per_watermark();
+    double n_trapped_electrons_start = n_trapped_electrons_per_wmk.sum();
+    double n_trapped_electrons_in_this_wmk;
+    double test_value;
+    double test_criterion = abs(min_n_electrons);
+              
+    // Consider each active watermark
+    int n_watermarks_pruned = 0;
+    for (int i_wmk = i_first_active_wmk + 1;
+        i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+        
+        int i_wmk_prime = i_wmk - n_watermarks_pruned;
+                
+        // Work out how many electrons are in this watermark
+        n_trapped_electrons_in_this_wmk = n_trapped_electrons_in_watermark(i_wmk_prime);
+        if (min_n_electrons > 0) {
+            test_value = n_trapped_electrons_in_this_wmk;
+        } else {
+            test_value = n_electrons_released_from_wmk_above_cloud(i_wmk_prime);
+        } 
+        if (test_value < test_criterion) {
+            
+            // Push the small number of electrons down into previous watermark
+            // (redistributing them between trap species by keeping fill fractions 
+            // as before, but increasing the watermark volume. This is not ideal
+            // but ensures no fill fractions ever exceed 1)
+            double n_trapped_electrons_in_last_wmk = n_trapped_electrons_in_watermark(i_wmk_prime - 1);
+                        
+            double delta_volume_below = watermark_volumes[i_wmk_prime - 1] *
+                n_trapped_electrons_in_this_wmk / n_trapped_electrons_in_last_wmk;
+
+/*            // Temp report
+            std::valarray<double> fill_fractions_in_down_wmk =
+                watermark_fills[std::slice((i_wmk_prime-1) * n_traps, n_traps, 1)];
+            double n_trapped_electrons_in_down_wmk = 
+                fill_fractions_in_down_wmk.sum() * watermark_volumes[i_wmk_prime-1]; 
+            print_v(0,"DownIncTo: %d volume: %g fill: %g n_electrons: %g \n", 
+                i_wmk_prime-1,watermark_volumes[i_wmk_prime-1],
+                fill_fractions_in_down_wmk.sum(),
+                n_trapped_electrons_in_down_wmk);
+
+            // Temp report
+            std::valarray<double> fill_fractions_in_this_wmk =
+                watermark_fills[std::slice(i_wmk_prime * n_traps, n_traps, 1)];
+            double n_trapped_electrons_in_this_wmk = 
+                fill_fractions_in_this_wmk.sum() * watermark_volumes[i_wmk_prime]; 
+            print_v(0,"ThisRemov: %d volume: %g fill: %g n_electrons: %g test: %g \n", 
+                i_wmk_prime,watermark_volumes[i_wmk_prime],
+                fill_fractions_in_this_wmk.sum(),
+                n_trapped_electrons_in_this_wmk,test_value);
+*/            
+            
+            
+            watermark_volumes[i_wmk_prime - 1] += delta_volume_below;
+            
+            // If there is a higher watermark...
+            if ((i_wmk + 1) < (i_first_active_wmk + n_active_watermarks)) {
+                
+                
+
+/*                // Temp report
+                std::valarray<double> fill_fractions_in_next_wmk =
+                    watermark_fills[std::slice((i_wmk_prime+1) * n_traps, n_traps, 1)];
+                double n_trapped_electrons_in_next_wmk = 
+                    fill_fractions_in_next_wmk.sum() * watermark_volumes[i_wmk_prime+1]; 
+                print_v(0,"ReplaceBy: %d volume: %g fill: %g n_electrons: %g \n", 
+                    i_wmk_prime,watermark_volumes[i_wmk_prime+1],
+                    fill_fractions_in_next_wmk.sum(),
+                    n_trapped_electrons_in_next_wmk);
+*/
+         
+                
+                // ...increase its volume to compensate,
+                double delta_volume_above = watermark_volumes[i_wmk_prime] - delta_volume_below;
+                watermark_volumes[i_wmk_prime + 1] += delta_volume_above;
+                
+                // Prevent division by zero if Va = Vi = 0
+                if (watermark_volumes[i_wmk_prime + 1] > 0) {
+
+                    // ...reduce its fill fraction to preserve number of electrons, 
+                    double fill_multiplier = 
+                        (watermark_volumes[i_wmk_prime + 1] - delta_volume_above) /
+                        watermark_volumes[i_wmk_prime + 1];
+                    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                        watermark_fills[(i_wmk_prime + 1) * n_traps + i_trap] *= fill_multiplier;
+                    }
+                
+                } //else { print_v(0,"Problem watermark!\n"); } 
+                // These fill fractions should be zero (I hope), so don't change them anyway.
+                
+                // ...then shuffle all higher watermarks down to earlier watermark position
+                for (int j_wmk = i_wmk + 1;
+                    j_wmk < i_first_active_wmk + n_active_watermarks; j_wmk++) {
+                
+                    int j_wmk_prime = j_wmk - n_watermarks_pruned - 1;
+                    watermark_volumes[j_wmk_prime] = watermark_volumes[j_wmk_prime + 1];
+                    watermark_fills[std::slice(j_wmk_prime * n_traps, n_traps, 1)] = 
+                        watermark_fills[std::slice((j_wmk_prime + 1) * n_traps, n_traps, 1)];
+                }
+            }
+            n_watermarks_pruned += 1;          
+        } else {
+
+/*            // Temp report
+            std::valarray<double> fill_fractions_in_this_wmk =
+                watermark_fills[std::slice(i_wmk_prime * n_traps, n_traps, 1)];
+            double n_trapped_electrons_in_this_wmk = 
+                fill_fractions_in_this_wmk.sum() * watermark_volumes[i_wmk_prime]; 
+            print_v(0,"ThisStays: %d volume: %g fill: %g n_electrons: %g test: %g \n", 
+                i_wmk_prime,watermark_volumes[i_wmk_prime],
+                fill_fractions_in_this_wmk.sum(),
+                n_trapped_electrons_in_this_wmk,test_value);
+ */       
+        }
+    }
+    n_active_watermarks -= n_watermarks_pruned;
+
+    // Count the total number of electrons in each watermark
+    print_v(3,"\n\n Fill fractions after prune (first %d n %d)\n",i_first_active_wmk, n_active_watermarks);
+    
+    //int flag;
+    //flag = std::cin.get();
+    //if(flag == 'q') { abort(); }
+}
+
+/*
+    Find the index of the watermark with a volume that reaches above the cloud.
+
+    Parameters
+    ----------
+    cloud_fractional_volume : double
+        The fractional volume the electron cloud reaches in the pixel well.
+
+    Returns
+    -------
+    i_wmk_above_cloud : int
+        The index of the first active watermark that reaches above the cloud.
+*/
+int TrapManagerBase::watermark_index_above_cloud(double cloud_fractional_volume) {
+    double cumulative_volume = zeroth_watermark;
+    
+    // Sum up the fractional volumes until surpassing the cloud volume
+    for (int i_wmk = i_first_active_wmk;
+         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+        // Total volume so far
+        cumulative_volume += watermark_volumes[i_wmk];
+
+        if (cumulative_volume > cloud_fractional_volume) return i_wmk;
+    }
+
+    // Cloud volume above all watermarks
+    return i_first_active_wmk + n_active_watermarks;
+}
+
+/*
+    How many electrons will be released from a watermark above the cloud,
+    during the next timestep.
+
+    Parameters
+    ----------
+    cloud_fractional_volume : double
+        The fractional volume the electron cloud reaches in the pixel well.
+
+    Returns
+    -------
+    i_wmk_above_cloud : int
+        The index of the first active watermark that reaches above the cloud.
+*/
+double TrapManagerBase::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
+    throw std::runtime_error( "this should get replaced for any trap type" );
+    return 0;
+}
+
+
+
+
+
+
+
+
+
+
+// ========
+// TrapManagerInstantCapture::
+// ========
+/*
+    Class TrapManagerInstantCapture.
+
+    For the standard release-then-instant-capture algorithm.
+
+    Attributes
+    ----------
+    any_non_uniform_traps : double
+        Default false, set to true if any of the traps have a non-uniform
+        distribution with volume, in which case some small extra steps are
+        required in the release and capture functions.
+*/
+TrapManagerInstantCapture::TrapManagerInstantCapture(
+    std::valarray<TrapInstantCapture> traps, int max_n_transfers, CCDPhase ccd_phase,
+    double dwell_time)
+    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
+
+    n_traps = traps.size();
+    trap_densities = std::valarray<double>(n_traps);
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        trap_densities[i_trap] = traps[i_trap].density;
+    }
+
+    any_non_uniform_traps = false;
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        if (traps[i_trap].fractional_volume_full_exposed > 0.0) {
+            any_non_uniform_traps = true;
+            break;
+        }
+    }
+}
+
+/*
+    Set the probabilities of traps being full after release.
+
+    Sets
+    ----
+    empty_probabilities_from_release : std::valarray<double>
+        The fraction of traps that were full that become empty after release.
+*/
+void TrapManagerInstantCapture::set_fill_probabilities() {
+    empty_probabilities_from_release = std::valarray<double>(0.0, n_traps);
+
+    // Set probabilities for each trap species
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // Resulting empty fraction from release
+        empty_probabilities_from_release[i_trap] =
+            1.0 - exp(-traps[i_trap].release_rate * dwell_time);
+    }
+}
+
+/*
+    Call any necessary initialisation functions, etc.
+*/
+void TrapManagerInstantCapture::setup() {
+    initialise_trap_states();
+    set_fill_probabilities();
+}
+
+/*
+    Release electrons from traps and update the watermarks.
+
+    Returns
+    -------
+    n_electrons_released : double
+        The number of released electrons.
+
+    Updates
+    -------
+    watermark_volumes, watermark_fills : std::valarray<double>
+        The updated watermarks.
+*/
+double TrapManagerInstantCapture::n_electrons_released() {
+    double n_released = 0.0;
+    double n_released_this_wmk;
+    double frac_released;
+    double frac_exposed_per_volume;
+    double cumulative_volume = 0.0;
+    double next_cumulative_volume = 0.0;
+
+    // Each active watermark
+    for (int i_wmk = i_first_active_wmk;
+         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+        n_released_this_wmk = 0.0;
+
+        if (any_non_uniform_traps) {
+            // Total volume at the bottom and top of this watermark
+            cumulative_volume = next_cumulative_volume;
+            next_cumulative_volume += watermark_volumes[i_wmk];
+        }
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Fraction of released electrons
+            frac_released = watermark_fills[i_wmk * n_traps + i_trap] *
+                            empty_probabilities_from_release[i_trap];
+
+            // Account for non-uniform distribution with volume
+            if (traps[i_trap].fractional_volume_full_exposed == 0.0)
+                frac_exposed_per_volume = 1.0;
+            else
+                frac_exposed_per_volume =
+                    traps[i_trap].fraction_traps_exposed_per_fractional_volume(
+                        cumulative_volume, next_cumulative_volume);
+
+            // Number released
+            n_released_this_wmk += frac_released * frac_exposed_per_volume;
+
+            // Update the watermark fill fraction
+            watermark_fills[i_wmk * n_traps + i_trap] -= frac_released;
+        }
+
+        // Multiply by the watermark volume
+        n_released += n_released_this_wmk * watermark_volumes[i_wmk];
+    }
+
+    return n_released;
+}
+
+/*
+    How many electrons will be released from a watermark above the cloud,
+    during the next timestep.
+
+    Parameters
+    ----------
+    cloud_fractional_volume : double
+        The fractional volume the electron cloud reaches in the pixel well.
+
+    Returns
+    -------
+    i_wmk_above_cloud : int
+        The index of the first active watermark that reaches above the cloud.
+*/
+double TrapManagerInstantCapture::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
+    
+    //print_v(0,"IC child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
+
+    // Fraction of electrons released from each trap species
+    double frac_released_this_wmk = 0.0;
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // Fraction of released electrons
+        frac_released_this_wmk +=
+            watermark_fills[i_wmk * n_traps + i_trap] *
+            empty_probabilities_from_release[i_trap];
+    }
+
+    // Multiply by the watermark volume
+    return frac_released_this_wmk * watermark_volumes[i_wmk];
+}
+
+/*
+    Modify the watermarks for normal capture.
+
+    Parameters
+    ----------
+    cloud_fractional_volume : double
+        The fractional volume the electron cloud reaches in the pixel well.
+
+    i_wmk_above_cloud : int
+        The index of the first active watermark that reaches above the cloud.
+
+    Updates
+    -------
+    watermark_volumes, watermark_fills : std::valarray<double>
+        The updated watermarks.
+*/
+void TrapManagerInstantCapture::update_watermarks_capture(
+    double cloud_fractional_volume, int i_wmk_above_cloud) {
+    // First capture
+    if (n_active_watermarks == 0) {
+        // Set fractional volume
+        watermark_volumes[0] = cloud_fractional_volume - zeroth_watermark;
+
+        // Set fill fractions for all trap species
+        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities;
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    // Cloud below all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk) {
+
+        // Make room for the new lowest watermark
+        if (i_first_active_wmk > 0) {
+            // Use existing room below the current first active watermark
+            i_first_active_wmk--;
+        } else {
+            // Copy-paste all higher watermarks up one to make room
+            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+                 i_wmk >= i_first_active_wmk; i_wmk--) {
+                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                        watermark_fills[i_wmk * n_traps + i_trap];
+                }
+            }
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+
+        // New watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            trap_densities;
+
+        // Update fractional volume of the partially overwritten watermark above
+        watermark_volumes[i_first_active_wmk + 1] -= (cloud_fractional_volume - zeroth_watermark);
+    }
+
+    // Cloud above all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+        // Skip all overwritten watermarks
+        i_first_active_wmk = i_wmk_above_cloud - 1;
+
+        // New first watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            trap_densities;
+
+        // Update count of active watermarks
+        print_v(2,"Resetting watermarks\n");
+        n_active_watermarks = 1;
+    }
+
+    // Cloud between current watermarks
+    else {
+        // Update fractional volume of the partially overwritten watermark
+        double previous_total_volume = zeroth_watermark;
+        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+            previous_total_volume += watermark_volumes[i_wmk];
+        }
+        watermark_volumes[i_wmk_above_cloud] =
+            previous_total_volume - cloud_fractional_volume;
+
+        // Update count of active watermarks
+        n_active_watermarks += i_first_active_wmk - i_wmk_above_cloud + 1;
+
+        // Skip all overwritten watermarks
+        i_first_active_wmk = i_wmk_above_cloud - 1;
+
+        // New first watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            trap_densities;
+    }
+
+    return;
+}
+
+/*
+    Modify the watermarks for capture when not enough electrons are available.
+
+    Each watermark is partially filled a fraction (`enough`) of the way to full,
+    such that the resulting number of captured electrons is restricted to the
+    number actually available for capture.
+
+    This only becomes relevant for tiny numbers of electrons, where the cloud
+    can reach a disproportionately large volume in the pixel (reaching
+    correspondingly many traps) for the small amount of charge.
+
+    Parameters
+    ----------
+    cloud_fractional_volume : double
+        The fractional volume the electron cloud reaches in the pixel well.
+
+    i_wmk_above_cloud : int
+        The index of the first active watermark that reaches above the cloud.
+
+    enough : double
+        The amount of electrons available as a fraction of the number that
+        could be captured by the watermarks reached by the cloud volume.
+
+    Updates
+    -------
+    watermark_volumes, watermark_fills : std::valarray<double>
+        The updated watermarks.
+*/
+void TrapManagerInstantCapture::update_watermarks_capture_not_enough(
+    double cloud_fractional_volume, int i_wmk_above_cloud, double enough) {
+    // First capture
+    if (n_active_watermarks == 0) {
+        // Set fractional volume
+        watermark_volumes[0] = cloud_fractional_volume - zeroth_watermark;
+
+        // Set fill fractions for all trap species
+        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities * enough;
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    // Cloud below all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk) {
+
+        // Make room for the new lowest watermark
+        if (i_first_active_wmk > 0) {
+            // Use existing room below the current first active watermark
+            i_first_active_wmk--;
+        } else {
+            // Copy-paste all higher watermarks up one to make room
+            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+                 i_wmk >= i_first_active_wmk; i_wmk--) {
+                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                        watermark_fills[i_wmk * n_traps + i_trap];
+                }
+            }
+        }
+
+        // New watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            (std::valarray<double>)watermark_fills[std::slice(
+                i_first_active_wmk * n_traps, n_traps, 1)] *
+                (1.0 - enough) +
+            enough * trap_densities; // is this wrong? the new watermark level should be created full
+
+        // Update fractional volume of the partially overwritten watermark above
+        watermark_volumes[i_first_active_wmk + 1] -= (cloud_fractional_volume - zeroth_watermark);
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    // Cloud above all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+        // Cumulative volume of the watermark just below the new one
+        double volume_below = zeroth_watermark;
+        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+            volume_below += watermark_volumes[i_wmk];
+        }
+
+        // New watermark
+        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
+        //print_v(0,"Above cloud notenough. i %d wv %g cfv %g vb %g\n",i_wmk_above_cloud,watermark_volumes[i_wmk_above_cloud],cloud_fractional_volume,volume_below);
+        watermark_fills[std::slice(
+            (i_first_active_wmk + n_active_watermarks) * n_traps, n_traps, 1)] =
+            enough * trap_densities;
+
+        // Update all other watermarks part-way to full
+        for (int i_wmk = i_first_active_wmk;
+             i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
+                (std::valarray<double>)
+                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
+                    (1.0 - enough) +
+                enough * trap_densities;
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    // Cloud between current watermarks
+    else {
+        // Copy-paste all higher watermarks up one to make room
+        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+             i_wmk >= i_wmk_above_cloud; i_wmk--) {
+            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                    watermark_fills[i_wmk * n_traps + i_trap];
+            }
+        }
+
+        // Cumulative volume of the watermark just below the new one
+        double volume_below = zeroth_watermark;
+        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+            volume_below += watermark_volumes[i_wmk];
+        }
+
+        // New watermark
+        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
+
+        // Update volume of the partially overwritten watermark
+        //print_v(0,"wmv %g %g\n",watermark_volumes[i_wmk_above_cloud + 1],watermark_volumes[i_wmk_above_cloud + 1]-watermark_volumes[i_wmk_above_cloud]);
+        watermark_volumes[i_wmk_above_cloud + 1] -=
+            watermark_volumes[i_wmk_above_cloud];
+
+        // Update all watermarks, including the new one, part-way to full
+        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
+                (std::valarray<double>)
+                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
+                    (1.0 - enough) +
+                enough * trap_densities;
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    return;
+}
+
+/*
+    Capture electrons in traps and update the watermarks.
+
+    Parameters
+    ----------
+    n_free_electrons : double
+        The number of available electrons for trapping.
+
+    Returns
+    -------
+    n_electrons_captured : double
+        The number of captured electrons.
+
+    Updates
+    -------
+    watermark_volumes, watermark_fills : std::valarray<double>
+        The updated watermarks.
+*/
+double TrapManagerInstantCapture::n_electrons_captured(double n_free_electrons) {
+    // The fractional volume the electron cloud reaches in the pixel well
+    double cloud_fractional_volume =
+        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+
+    // No capture
+    if (cloud_fractional_volume == 0.0) return 0.0;
+
+    // ========
+    // Count the number of electrons that can be captured by each watermark
+    // ========
+    double n_captured = 0.0;
+    double n_captured_this_wmk;
+    double cumulative_volume = zeroth_watermark;
+    double next_cumulative_volume = zeroth_watermark;
+    double volume_top;
+    double frac_exposed_per_volume;
+
+    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+
+    // Each active watermark
+    for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+        n_captured_this_wmk = 0.0;
+
+        // Total volume at the bottom and top of this watermark
+        cumulative_volume = next_cumulative_volume;
+        next_cumulative_volume += watermark_volumes[i_wmk];
+
+        // Capture up to the cloud volume for the last watermark
+        if (i_wmk == i_wmk_above_cloud) {
+            volume_top = cloud_fractional_volume;
+        }
+        // Capture up to the next watermark for watermarks below the cloud
+        else {
+            volume_top = next_cumulative_volume;
+        }
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Account for non-uniform distribution with volume
+            if (traps[i_trap].fractional_volume_full_exposed == 0.0)
+                frac_exposed_per_volume = 1.0;
+            else
+                frac_exposed_per_volume =
+                    traps[i_trap].fraction_traps_exposed_per_fractional_volume(
+                        cumulative_volume, volume_top);
+
+            n_captured_this_wmk +=
+                (trap_densities[i_trap] - watermark_fills[i_wmk * n_traps + i_trap]) *
+                frac_exposed_per_volume;
+        }
+
+        // Capture from the bottom to the top of the watermark
+        n_captured += n_captured_this_wmk * (volume_top - cumulative_volume);
+    }
+
+    // ========
+    // Update the watermarks
+    // ========
+    // Check enough available electrons to capture
+    //
+    // Would be really nice to do this including the express multiplier.
+    // That would also prevent image pixels from changing sign when zeroth_watermark<0.
+    //
+    double enough = abs(n_free_electrons / n_captured);
+    //print_v(0,"enough %g %g %g\n", enough, n_free_electrons, n_captured);
+
+    // Normal full capture
+    if ( enough >= 1.0) {
+        update_watermarks_capture(cloud_fractional_volume, i_wmk_above_cloud);
+    }
+    // Partial capture
+    else {
+        update_watermarks_capture_not_enough(
+            cloud_fractional_volume, i_wmk_above_cloud, enough);
+
+        n_captured *= enough;
+    }
+
+    return n_captured;
+}
+
+/*
+    Release and capture electrons and update the trap watermarks.
+
+    The interaction between traps and the charge cloud during its dwell time in
+    this pixel (and phase) is modelled as follows:
+    + First the previously filled traps release charge.
+    + This may update the number of free electrons in the cloud that are
+        available for capture.
+    + Then any unfilled traps within the cloud volume capture charge.
+    + In the rare case that not enough electrons are available for capture,
+        all traps within the cloud capture proportionally less charge to match.
+
+    Parameters
+    ----------
+    n_free_electrons : double
+        The number of available electrons for trapping.
+
+    Returns
+    -------
+    n_electrons_released_and_captured : double
+        The number of released electrons.
+
+    Updates
+    -------
+    watermark_volumes, watermark_fills : std::valarray<double>
+        The updated watermarks.
+*/
+double TrapManagerInstantCapture::n_electrons_released_and_captured(
+    double n_free_electrons) {
+
+    //print_v(0, "n_free_electrons  %g \n", n_free_electrons);
+    //if (n_free_electrons < zeroth_watermark) {
+    //    lower_zeroth_watermark(n_free_electrons);
+    //}
+
+    double n_released = n_electrons_released();
+    print_v(2, "n_electrons_released  %g \n", n_released);
+
+    double n_captured = n_electrons_captured(n_free_electrons + n_released);
+    print_v(2, "n_electrons_captured  %g \n", n_captured);
+
+    return n_released - n_captured;
+}
+
+
+
+
+
+
+
+
+
+
+
+
+
+// ========
+// TrapManagerSlowCapture::
+// ========
+/*
+    Class TrapManagerSlowCapture.
+
+    For traps with a non-zero capture time.
+*/
+TrapManagerSlowCapture::TrapManagerSlowCapture(
+    std::valarray<TrapSlowCapture> traps, int max_n_transfers, CCDPhase ccd_phase,
+    double dwell_time)
+    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
+
+    n_traps = traps.size();
+    trap_densities = std::valarray<double>(n_traps);
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        trap_densities[i_trap] = traps[i_trap].density;
+    }
+
+    // Overwrite default parameter values
+    n_watermarks_per_transfer = 2;
+}
+
+/*
+    Set the probabilities of traps being full after release and/or capture.
+
+    See Lindegren (1998) section 3.2.
+
+    Sets
+    ----
+    fill_probabilities_from_empty : std::valarray<double>
+        The fraction of traps that were empty that become full.
+
+    fill_probabilities_from_full : std::valarray<double>
+        The fraction of traps that were full that stay full.
+
+    empty_probabilities_from_release : std::valarray<double>
+        The fraction of traps that were full that become empty after release.
+*/
+void TrapManagerSlowCapture::set_fill_probabilities() {
+    double total_rate, exponential_factor;
+    fill_probabilities_from_empty = std::valarray<double>(0.0, n_traps);
+    fill_probabilities_from_full = std::valarray<double>(0.0, n_traps);
+    empty_probabilities_from_release = std::valarray<double>(0.0, n_traps);
+
+    // Set probabilities for each trap species
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // Common factors
+        total_rate = traps[i_trap].capture_rate + traps[i_trap].release_rate;
+        exponential_factor = (1 - exp(-total_rate * dwell_time)) / total_rate;
+
+        // Resulting fill fraction for empty traps (Eqn. 20)
+        if (traps[i_trap].capture_rate == 0.0)
+            // Instant capture
+            fill_probabilities_from_empty[i_trap] = 1.0;
+        else
+            fill_probabilities_from_empty[i_trap] =
+                traps[i_trap].capture_rate * exponential_factor;
+
+        // Resulting fill fraction for filled traps (Eqn. 21)
+        fill_probabilities_from_full[i_trap] =
+            1.0 - traps[i_trap].release_rate * exponential_factor;
+
+        // Resulting empty fraction from only release
+        empty_probabilities_from_release[i_trap] =
+            1.0 - exp(-traps[i_trap].release_rate * dwell_time);
+    }
+}
+
+/*
+    Call any necessary initialisation functions, etc.
+*/
+void TrapManagerSlowCapture::setup() {
+    initialise_trap_states();
+    set_fill_probabilities();
+}
+
+/*
+    Same as TrapManagerInstantCapture
+*/
+double TrapManagerSlowCapture::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
+    
+    //print_v(0,"SC child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
+
+    // Fraction of electrons released from each trap species
+    double frac_released_this_wmk = 0.0;
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // Fraction of released electrons
+        frac_released_this_wmk +=
+            watermark_fills[i_wmk * n_traps + i_trap] *
+            empty_probabilities_from_release[i_trap];
+    }
+
+    // Multiply by the watermark volume
+    return frac_released_this_wmk * watermark_volumes[i_wmk];
+}
+/*
+    Release and capture electrons and update the trap watermarks.
+
+    The interaction between traps and the charge cloud during its dwell time in
+    this pixel (and phase) is modelled as follows:
+    + First any previously filled traps that are not within the cloud volume
+        release charge.
+    + This may update the number of free electrons in the cloud that are
+        available for capture.
+    + Then all traps within the cloud volume release and capture charge.
+    + In the rare case that not enough electrons are available for capture,
+        all traps within the cloud capture proportionally less charge to match.
+
+    Parameters
+    ----------
+    n_free_electrons : double
+        The number of available electrons for trapping.
+
+    Returns
+    -------
+    n_electrons_released_and_captured : double
+        The number of released electrons.
+
+    Updates
+    -------
+    watermark_volumes, watermark_fills : std::valarray<double>
+        The updated watermarks.
+*/
+double TrapManagerSlowCapture::n_electrons_released_and_captured(
+    double n_free_electrons) {
+    // The fractional volume the electron cloud reaches in the pixel well
+    double cloud_fractional_volume =
+        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+
+    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+
+    // Add a new watermark at the cloud height
+    if (cloud_fractional_volume > 0.0) {
+        // First capture
+        if (n_active_watermarks == 0) {
+            // Set fractional volume
+            watermark_volumes[0] = cloud_fractional_volume;
+
+            // Update count of active watermarks
+            n_active_watermarks++;
+        }
+
+        // Cloud above all current watermarks
+        else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+            double previous_total_volume = 0.0;
+            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+                previous_total_volume += watermark_volumes[i_wmk];
+            }
+
+            // Set fractional volume
+            watermark_volumes[i_wmk_above_cloud] =
+                cloud_fractional_volume - previous_total_volume;
+
+            // Update count of active watermarks
+            n_active_watermarks++;
+        }
+
+        // Cloud between or below current watermarks
+        else {
+            // Original total volume of the to-be-split watermark
+            double previous_total_volume = 0.0;
+            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+                previous_total_volume += watermark_volumes[i_wmk];
+            }
+
+            // Copy-paste all higher watermarks up one to make room
+            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+                 i_wmk >= i_wmk_above_cloud; i_wmk--) {
+                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                        watermark_fills[i_wmk * n_traps + i_trap];
+                }
+            }
+
+            // Update count of active watermarks
+            n_active_watermarks++;
+            i_wmk_above_cloud++;
+
+            // New watermark
+            watermark_volumes[i_wmk_above_cloud - 1] =
+                watermark_volumes[i_wmk_above_cloud] -
+                (previous_total_volume - cloud_fractional_volume);
+
+            // Update fractional volume of the partially overwritten watermark
+            watermark_volumes[i_wmk_above_cloud] =
+                previous_total_volume - cloud_fractional_volume;
+        }
+    }
+
+    // ========
+    // Release electrons from any watermarks above the cloud
+    // ========
+    double n_released = 0.0;
+    double frac_released_this_wmk;
+    double frac_released_this_wmk_this_trap;
+    double cumulative_volume = 0.0;
+    double next_cumulative_volume = 0.0;
+
+    // Count the released electrons and update the watermarks
+    for (int i_wmk = i_wmk_above_cloud;
+         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+        frac_released_this_wmk = 0.0;
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Fraction of released electrons
+            frac_released_this_wmk_this_trap = 
+                watermark_fills[i_wmk * n_traps + i_trap] *
+                empty_probabilities_from_release[i_trap];
+
+            // Update the watermark fill fraction
+            watermark_fills[i_wmk * n_traps + i_trap] -= 
+                frac_released_this_wmk_this_trap;
+            
+            // Keep stock of newly free (fraction of) electrons
+            frac_released_this_wmk += frac_released_this_wmk_this_trap;
+        }
+
+        // Multiply by the watermark volume
+        n_released += frac_released_this_wmk * watermark_volumes[i_wmk];
+    }
+
+    // Update the electron cloud
+    n_free_electrons += n_released;
+    cloud_fractional_volume =
+        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+    i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+
+    // ========
+    // Capture and release electrons below the cloud
+    // ========
+    // No capture
+    if (cloud_fractional_volume == 0.0) return n_released;
+
+    // Add a new watermark at the new cloud height
+    if (n_released > 0.0) {
+        // Original total volume of the watermark
+        double previous_total_volume = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+            previous_total_volume += watermark_volumes[i_wmk];
+        }
+
+        // Copy-paste any higher watermarks up one to make room
+        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+             i_wmk >= i_wmk_above_cloud; i_wmk--) {
+            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                    watermark_fills[i_wmk * n_traps + i_trap];
+            }
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+        i_wmk_above_cloud++;
+
+        // New watermark
+        watermark_volumes[i_wmk_above_cloud - 1] =
+            watermark_volumes[i_wmk_above_cloud] -
+            (previous_total_volume - cloud_fractional_volume);
+
+        // Update fractional volume of the partially overwritten watermark
+        watermark_volumes[i_wmk_above_cloud] =
+            previous_total_volume - cloud_fractional_volume;
+    }
+
+    // Release and capture electrons in each watermark below the cloud
+    double n_released_and_captured = 0.0;
+    double n_released_and_captured_this_wmk = 0.0;
+    double new_fill;
+    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+        n_released_and_captured_this_wmk = 0.0;
+
+        // Total volume at the bottom and top of this watermark
+        cumulative_volume = next_cumulative_volume;
+        next_cumulative_volume += watermark_volumes[i_wmk];
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Fraction of full traps that remain full plus fraction of empty
+            // traps that become full
+            new_fill = fill_probabilities_from_full[i_trap] *
+                           watermark_fills[i_wmk * n_traps + i_trap] +
+                       fill_probabilities_from_empty[i_trap] *
+                           (trap_densities[i_trap] -
+                            watermark_fills[i_wmk * n_traps + i_trap]);
+
+            // Net released minus captured electrons
+            n_released_and_captured_this_wmk +=
+                watermark_fills[i_wmk * n_traps + i_trap] - new_fill;
+        }
+
+        // Multiply by the watermark volume
+        n_released_and_captured += n_released_and_captured_this_wmk *
+                                   (next_cumulative_volume - cumulative_volume);
+    }
+
+    // ========
+    // Update the watermarks
+    // ========
+    // Check enough available electrons to capture, if more captured than released
+    double enough;
+    if (n_released_and_captured < 0.0)
+        enough = n_free_electrons / -n_released_and_captured;
+    else
+        enough = 1.0;
+
+    // Update the watermarks for release and capture below the cloud
+    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+        n_released_and_captured_this_wmk = 0.0;
+
+        // Total volume at the bottom and top of this watermark
+        cumulative_volume = next_cumulative_volume;
+        next_cumulative_volume += watermark_volumes[i_wmk];
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Fraction of full traps that remain full plus fraction of empty
+            // traps that become full
+            new_fill = fill_probabilities_from_full[i_trap] *
+                           watermark_fills[i_wmk * n_traps + i_trap] +
+                       fill_probabilities_from_empty[i_trap] *
+                           (trap_densities[i_trap] -
+                            watermark_fills[i_wmk * n_traps + i_trap]);
+
+            // Modify for not-enough capture
+            if (enough < 1.0) {
+                new_fill = enough * new_fill +
+                           (1.0 - enough) * watermark_fills[i_wmk * n_traps + i_trap];
+            }
+
+            // Update watermark fill fractions
+            watermark_fills[i_wmk * n_traps + i_trap] = new_fill;
+        }
+    }
+
+    if (enough < 1.0) n_released_and_captured *= enough;
+
+    return n_released + n_released_and_captured;
+}
+
+
+
+
+
+// ========
+// TrapManagerInstantCaptureContinuum::
+// ========
+/*
+    Class TrapManagerInstantCaptureContinuum.
+
+    For trap species with continous distributions of release timescales, and
+    the standard release-then-instant-capture algorithm.
+
+    For release, the watermark fill fractions are converted into the total time
+    elapsed since the traps were filled in order to update them.
+
+    Capture is identical to instant-capture traps.
+
+    Attributes (in addition to TrapManagerBase)
+    ----------
+    time_min : double
+    time_max : double
+        The minimum and maximum elapsed times to set the interpolation table
+        limits. See prep_fill_fraction_and_time_elapsed_tables().
+
+    n_intp : int
+        The number of interpolation values in the arrays. Currently set here
+        manually. See prep_fill_fraction_and_time_elapsed_tables().
+*/
+TrapManagerInstantCaptureContinuum::TrapManagerInstantCaptureContinuum(
+    std::valarray<TrapInstantCaptureContinuum> traps, int max_n_transfers,
+    CCDPhase ccd_phase, double dwell_time)
+    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
+
+    n_traps = traps.size();
+    trap_densities = std::valarray<double>(n_traps);
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        trap_densities[i_trap] = traps[i_trap].density;
+    }
+
+    time_min = dwell_time;
+    time_max = max_n_transfers * dwell_time;
+    n_intp = 1000;
+}
+
+/*
+    Set the interpolation table values for converting between fill fractions
+    and elapsed times.
+
+    See TrapInstantCaptureContinuum.prep_fill_fraction_and_time_elapsed_tables().
+*/
+void TrapManagerInstantCaptureContinuum::prepare_interpolation_tables() {
+    // Prepare interpolation tables for each trap species
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        traps[i_trap].prep_fill_fraction_and_time_elapsed_tables(
+            time_min, time_max, n_intp);
+    }
+}
+
+/*
+    Call any necessary initialisation functions, etc.
+*/
+void TrapManagerInstantCaptureContinuum::setup() {
+    initialise_trap_states();
+    prepare_interpolation_tables();
+}
+
+/*
+    How many electrons will be released from a watermark above the cloud,
+    during the next timestep.
+
+    Parameters
+    ----------
+    cloud_fractional_volume : double
+        The fractional volume the electron cloud reaches in the pixel well.
+
+    Returns
+    -------
+    i_wmk_above_cloud : int
+        The index of the first active watermark that reaches above the cloud.
+*/
+double TrapManagerInstantCaptureContinuum::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
+    
+//    print_v(0,"ICCR child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
+//    return 0;
+    // Fraction of electrons released from each trap species
+    double frac_released_this_wmk = 0.0;
+    double fill_initial;
+    double time_initial;
+    double fill_final;
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // Initial fill and conversion to elapsed time
+        fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
+        time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
+            fill_initial / trap_densities[i_trap]);
+
+        // New fill fraction from updated elapsed time
+        fill_final = trap_densities[i_trap] *
+            traps[i_trap].fill_fraction_from_time_elapsed_table(
+                time_initial + dwell_time);
+
+        // Number released from difference in fill fractions
+        frac_released_this_wmk += fill_initial - fill_final;
+    }
+
+    // Multiply by the watermark volume
+    return frac_released_this_wmk * watermark_volumes[i_wmk];
+
+}
+/*
+    Same as TrapManagerInstantCapture, except for the conversion between fill
+    fractions and elapsed times to update the trap states.
+*/
+double TrapManagerInstantCaptureContinuum::n_electrons_released() {
+    double n_released = 0.0;
+    double n_released_this_wmk;
+    double fill_initial;
+    double time_initial;
+
+    // Each active watermark
+    for (int i_wmk = i_first_active_wmk;
+         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+        n_released_this_wmk = 0.0;
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Initial fill and conversion to elapsed time
+            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
+            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
+                fill_initial / trap_densities[i_trap]);
+
+            // New fill fraction from updated elapsed time
+            watermark_fills[i_wmk * n_traps + i_trap] =
+                trap_densities[i_trap] *
+                traps[i_trap].fill_fraction_from_time_elapsed_table(
+                    time_initial + dwell_time);
+
+            // Number released from difference in fill fractions
+            n_released_this_wmk +=
+                fill_initial - watermark_fills[i_wmk * n_traps + i_trap];
+        }
+
+        // Multiply by the watermark volume
+        n_released += n_released_this_wmk * watermark_volumes[i_wmk];
+    }
+
+    return n_released;
+}
+
+/*
+    Same as TrapManagerInstantCapture.
+*/
+void TrapManagerInstantCaptureContinuum::update_watermarks_capture(
+    double cloud_fractional_volume, int i_wmk_above_cloud) {
+    // First capture
+    if (n_active_watermarks == 0) {
+        // Set fractional volume
+        watermark_volumes[0] = cloud_fractional_volume;
+
+        // Set fill fractions for all trap species
+        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities;
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    // Cloud below all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk) {
+        // Make room for the new lowest watermark
+        if (i_first_active_wmk > 0) {
+            // Use existing room below the current first active watermark
+            i_first_active_wmk--;
+        } else {
+            // Copy-paste all higher watermarks up one to make room
+            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+                 i_wmk >= i_first_active_wmk; i_wmk--) {
+                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                        watermark_fills[i_wmk * n_traps + i_trap];
+                }
+            }
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+
+        // New watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            trap_densities;
+
+        // Update fractional volume of the partially overwritten watermark above
+        watermark_volumes[i_first_active_wmk + 1] -= cloud_fractional_volume;
+    }
+
+    // Cloud above all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+        // Skip all overwritten watermarks
+        i_first_active_wmk = i_wmk_above_cloud - 1;
+
+        // New first watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            trap_densities;
+
+        // Update count of active watermarks
+        n_active_watermarks = 1;
+    }
+
+    // Cloud between current watermarks
+    else {
+        // Update fractional volume of the partially overwritten watermark
+        double previous_total_volume = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+            previous_total_volume += watermark_volumes[i_wmk];
+        }
+        watermark_volumes[i_wmk_above_cloud] =
+            previous_total_volume - cloud_fractional_volume;
+
+        // Update count of active watermarks
+        n_active_watermarks += i_first_active_wmk - i_wmk_above_cloud + 1;
+
+        // Skip all overwritten watermarks
+        i_first_active_wmk = i_wmk_above_cloud - 1;
+
+        // New first watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            trap_densities;
+    }
+
+    return;
+}
+
+/*
+    Same as TrapManagerInstantCapture.
+*/
+void TrapManagerInstantCaptureContinuum::update_watermarks_capture_not_enough(
+    double cloud_fractional_volume, int i_wmk_above_cloud, double enough) {
+    // First capture
+    if (n_active_watermarks == 0) {
+        // Set fractional volume
+        watermark_volumes[0] = cloud_fractional_volume;
+
+        // Set fill fractions for all trap species
+        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities * enough;
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    // Cloud below all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk) {
+        // Make room for the new lowest watermark
+        if (i_first_active_wmk > 0) {
+            // Use existing room below the current first active watermark
+            i_first_active_wmk--;
+        } else {
+            // Copy-paste all higher watermarks up one to make room
+            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+                 i_wmk >= i_first_active_wmk; i_wmk--) {
+                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                        watermark_fills[i_wmk * n_traps + i_trap];
+                }
+            }
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+
+        // New watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            (std::valarray<double>)watermark_fills[std::slice(
+                i_first_active_wmk * n_traps, n_traps, 1)] *
+                (1.0 - enough) +
+            enough * trap_densities;
+
+        // Update fractional volume of the partially overwritten watermark above
+        watermark_volumes[i_first_active_wmk + 1] -= cloud_fractional_volume;
+    }
+
+    // Cloud above all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+        // Cumulative volume of the watermark just below the new one
+        double volume_below = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+            volume_below += watermark_volumes[i_wmk];
+        }
+
+        // New watermark
+        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
+        watermark_fills[std::slice(
+            (i_first_active_wmk + n_active_watermarks) * n_traps, n_traps, 1)] =
+            enough * trap_densities;
+
+        // Update all other watermarks part-way to full
+        for (int i_wmk = i_first_active_wmk;
+             i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
+                (std::valarray<double>)
+                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
+                    (1.0 - enough) +
+                enough * trap_densities;
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    // Cloud between current watermarks
+    else {
+        // Copy-paste all higher watermarks up one to make room
+        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+             i_wmk >= i_wmk_above_cloud; i_wmk--) {
+            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                    watermark_fills[i_wmk * n_traps + i_trap];
+            }
+        }
+
+        // Cumulative volume of the watermark just below the new one
+        double volume_below = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+            volume_below += watermark_volumes[i_wmk];
+        }
+
+        // New watermark
+        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
+
+        // Update volume of the partially overwritten watermark
+        watermark_volumes[i_wmk_above_cloud + 1] -=
+            watermark_volumes[i_wmk_above_cloud];
+
+        // Update all watermarks, including the new one, part-way to full
+        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
+                (std::valarray<double>)
+                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
+                    (1.0 - enough) +
+                enough * trap_densities;
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    return;
+}
+
+/*
+    Same as TrapManagerInstantCapture.
+*/
+double TrapManagerInstantCaptureContinuum::n_electrons_captured(
+    double n_free_electrons) {
+    // The fractional volume the electron cloud reaches in the pixel well
+    double cloud_fractional_volume =
+        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+
+    // No capture
+    if (cloud_fractional_volume == 0.0) return 0.0;
+
+    // ========
+    // Count the number of electrons that can be captured by each watermark
+    // ========
+    double n_captured = 0.0;
+    double n_captured_this_wmk;
+    double cumulative_volume = 0.0;
+    double next_cumulative_volume = 0.0;
+
+    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+
+    // Each active watermark
+    for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+        n_captured_this_wmk = 0.0;
+
+        // Total volume at the bottom and top of this watermark
+        cumulative_volume = next_cumulative_volume;
+        next_cumulative_volume += watermark_volumes[i_wmk];
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            n_captured_this_wmk +=
+                trap_densities[i_trap] - watermark_fills[i_wmk * n_traps + i_trap];
+        }
+
+        // Capture from the bottom of the last watermark up to the cloud volume
+        if (i_wmk == i_wmk_above_cloud) {
+            n_captured +=
+                n_captured_this_wmk * (cloud_fractional_volume - cumulative_volume);
+        }
+        // Capture from the bottom to top of watermark volumes below the cloud
+        else {
+            n_captured +=
+                n_captured_this_wmk * (next_cumulative_volume - cumulative_volume);
+        }
+    }
+
+    // ========
+    // Update the watermarks
+    // ========
+    // Check enough available electrons to capture
+    double enough = n_free_electrons / n_captured;
+
+    // Normal full capture
+    if (enough >= 1.0) {
+        update_watermarks_capture(cloud_fractional_volume, i_wmk_above_cloud);
+    }
+    // Partial capture
+    else {
+        update_watermarks_capture_not_enough(
+            cloud_fractional_volume, i_wmk_above_cloud, enough);
+
+        n_captured *= enough;
+    }
+
+    return n_captured;
+}
+
+/*
+    Same as TrapManagerInstantCapture.
+*/
+double TrapManagerInstantCaptureContinuum::n_electrons_released_and_captured(
+    double n_free_electrons) {
+
+    double n_released = n_electrons_released();
+    print_v(2, "n_electrons_released  %g \n", n_released);
+
+    double n_captured = n_electrons_captured(n_free_electrons + n_released);
+    print_v(2, "n_electrons_captured  %g \n", n_captured);
+
+    return n_released - n_captured;
+}
+
+
+
+
+// ========
+// TrapManagerSlowCaptureContinuum::
+// ========
+/*
+    Class TrapManagerSlowCaptureContinuum.
+
+    For traps with a non-instant capture time and a continuum (log-normal
+    distribution) of release timescales.
+
+    Attributes (where different to TrapManagerInstantCaptureContinuum)
+    ----------
+    time_min : double
+        Unlike instant capture, need a much smaller minimum time so that the
+        interpolation tables cover the not-completely-filled traps from capture.
+*/
+TrapManagerSlowCaptureContinuum::TrapManagerSlowCaptureContinuum(
+    std::valarray<TrapSlowCaptureContinuum> traps, int max_n_transfers,
+    CCDPhase ccd_phase, double dwell_time)
+    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
+
+    n_traps = traps.size();
+    trap_densities = std::valarray<double>(n_traps);
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        trap_densities[i_trap] = traps[i_trap].density;
+    }
+
+    time_min = dwell_time / 30;
+    time_max = max_n_transfers * dwell_time;
+    n_intp = 1000;
+
+    // Overwrite default parameter values
+    n_watermarks_per_transfer = 2;
+}
+
+/*
+    Set the interpolation table values for converting between fill fractions
+    and elapsed times.
+
+    See TrapManagerSlowCaptureContinuum.prep_fill_fraction_and_time_elapsed_tables()
+    and prep_fill_fraction_after_slow_capture_tables().
+*/
+void TrapManagerSlowCaptureContinuum::prepare_interpolation_tables() {
+    // Prepare interpolation tables for each trap species
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        traps[i_trap].prep_fill_fraction_and_time_elapsed_tables(
+            time_min, time_max, n_intp);
+        traps[i_trap].prep_fill_fraction_after_slow_capture_tables(
+            dwell_time, time_min, time_max, n_intp);
+    }
+}
+
+/*
+    Call any necessary initialisation functions, etc.
+*/
+void TrapManagerSlowCaptureContinuum::setup() {
+    initialise_trap_states();
+    prepare_interpolation_tables();
+}
+
+/*
+    Same as InstantCaptureContinuum
+*/
+double TrapManagerSlowCaptureContinuum::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
+    
+    //print_v(0,"SCCR child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
+    
+    // Fraction of electrons released from each trap species
+    double frac_released_this_wmk = 0.0;
+    double fill_initial;
+    double time_initial;
+    double fill_final;
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // Initial fill and conversion to elapsed time
+        fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
+        time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
+            fill_initial / trap_densities[i_trap]);
+
+        // New fill fraction from updated elapsed time
+        fill_final = trap_densities[i_trap] *
+            traps[i_trap].fill_fraction_from_time_elapsed_table(
+                time_initial + dwell_time);
+
+        // Number released from difference in fill fractions
+        frac_released_this_wmk += fill_initial - fill_final;
+    }
+
+    // Multiply by the watermark volume
+    return frac_released_this_wmk * watermark_volumes[i_wmk];
+}
+/*
+    Same as TrapManagerSlowCapture, except for the conversion between fill
+    fractions and elapsed times to update the trap states.
+*/
+double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
+    double n_free_electrons) {
+    // The fractional volume the electron cloud reaches in the pixel well
+    double cloud_fractional_volume =
+        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+
+    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+
+    // Add a new watermark at the cloud height
+    if (cloud_fractional_volume > 0.0) {
+        // First capture
+        if (n_active_watermarks == 0) {
+            // Set fractional volume
+            watermark_volumes[0] = cloud_fractional_volume;
+
+            // Update count of active watermarks
+            n_active_watermarks++;
+        }
+
+        // Cloud above all current watermarks
+        else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+            double previous_total_volume = 0.0;
+            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+                previous_total_volume += watermark_volumes[i_wmk];
+            }
+
+            // Set fractional volume
+            watermark_volumes[i_wmk_above_cloud] =
+                cloud_fractional_volume - previous_total_volume;
+
+            // Update count of active watermarks
+            n_active_watermarks++;
+        }
+
+        // Cloud between or below current watermarks
+        else {
+            // Original total volume of the to-be-split watermark
+            double previous_total_volume = 0.0;
+            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+                previous_total_volume += watermark_volumes[i_wmk];
+            }
+
+            // Copy-paste all higher watermarks up one to make room
+            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+                 i_wmk >= i_wmk_above_cloud; i_wmk--) {
+                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                        watermark_fills[i_wmk * n_traps + i_trap];
+                }
+            }
+
+            // Update count of active watermarks
+            n_active_watermarks++;
+            i_wmk_above_cloud++;
+
+            // New watermark
+            watermark_volumes[i_wmk_above_cloud - 1] =
+                watermark_volumes[i_wmk_above_cloud] -
+                (previous_total_volume - cloud_fractional_volume);
+
+            // Update fractional volume of the partially overwritten watermark
+            watermark_volumes[i_wmk_above_cloud] =
+                previous_total_volume - cloud_fractional_volume;
+        }
+    }
+
+    // ========
+    // Release electrons from any watermarks above the cloud
+    // ========
+    double n_released = 0.0;
+    double n_released_this_wmk = 0.0;
+    double fill_initial;
+    double time_initial;
+    double cumulative_volume = 0.0;
+    double next_cumulative_volume = 0.0;
+
+    // Count the released electrons and update the watermarks
+    // Same as TrapManagerInstantCaptureContinuum.n_electrons_released()
+    for (int i_wmk = i_wmk_above_cloud;
+         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+        n_released_this_wmk = 0.0;
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Initial fill and conversion to elapsed time
+            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
+            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
+                fill_initial / trap_densities[i_trap]);
+
+            // New fill fraction from updated elapsed time
+            watermark_fills[i_wmk * n_traps + i_trap] =
+                trap_densities[i_trap] *
+                traps[i_trap].fill_fraction_from_time_elapsed_table(
+                    time_initial + dwell_time);
+
+            // Number released from difference in fill fractions
+            n_released_this_wmk +=
+                fill_initial - watermark_fills[i_wmk * n_traps + i_trap];
+        }
+
+        // Multiply by the watermark volume
+        n_released += n_released_this_wmk * watermark_volumes[i_wmk];
+    }
+
+    // Update the electron cloud
+    n_free_electrons += n_released;
+    cloud_fractional_volume =
+        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+    i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+
+    // ========
+    // Capture and release electrons below the cloud
+    // ========
+    // No capture
+    if (cloud_fractional_volume == 0.0) return n_released;
+
+    // Add a new watermark at the new cloud height
+    if (n_released > 0.0) {
+        // Original total volume of the watermark
+        double previous_total_volume = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+            previous_total_volume += watermark_volumes[i_wmk];
+        }
+
+        // Copy-paste any higher watermarks up one to make room
+        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+             i_wmk >= i_wmk_above_cloud; i_wmk--) {
+            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                    watermark_fills[i_wmk * n_traps + i_trap];
+            }
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+        i_wmk_above_cloud++;
+
+        // New watermark
+        watermark_volumes[i_wmk_above_cloud - 1] =
+            watermark_volumes[i_wmk_above_cloud] -
+            (previous_total_volume - cloud_fractional_volume);
+
+        // Update fractional volume of the partially overwritten watermark
+        watermark_volumes[i_wmk_above_cloud] =
+            previous_total_volume - cloud_fractional_volume;
+    }
+
+    // Release and capture electrons in each watermark below the cloud
+    double n_released_and_captured = 0.0;
+    double n_released_and_captured_this_wmk = 0.0;
+    double new_fill;
+    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+        n_released_and_captured_this_wmk = 0.0;
+
+        // Total volume at the bottom and top of this watermark
+        cumulative_volume = next_cumulative_volume;
+        next_cumulative_volume += watermark_volumes[i_wmk];
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Initial fill and conversion to elapsed time
+            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
+            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
+                fill_initial / trap_densities[i_trap]);
+
+            // Integrate over the fraction of full traps that remain full plus
+            // fraction of empty traps that become full over the distribution
+            new_fill =
+                traps[i_trap].fill_fraction_after_slow_capture_table(time_initial);
+
+            // Include the trap density
+            new_fill *= trap_densities[i_trap];
+
+            // Net released minus captured electrons
+            n_released_and_captured_this_wmk +=
+                watermark_fills[i_wmk * n_traps + i_trap] - new_fill;
+        }
+
+        // Multiply by the watermark volume
+        n_released_and_captured += n_released_and_captured_this_wmk *
+                                   (next_cumulative_volume - cumulative_volume);
+    }
+
+    // ========
+    // Update the watermarks
+    // ========
+    // Check enough available electrons to capture, if more captured than released
+    double enough;
+    if (n_released_and_captured < 0.0)
+        enough = n_free_electrons / -n_released_and_captured;
+    else
+        enough = 1.0;
+
+    // Update the watermarks for release and capture below the cloud
+    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+        n_released_and_captured_this_wmk = 0.0;
+
+        // Total volume at the bottom and top of this watermark
+        cumulative_volume = next_cumulative_volume;
+        next_cumulative_volume += watermark_volumes[i_wmk];
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Initial fill and conversion to elapsed time
+            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
+            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
+                fill_initial / trap_densities[i_trap]);
+
+            // Integrate over the fraction of full traps that remain full plus
+            // fraction of empty traps that become full over the distribution
+            new_fill =
+                traps[i_trap].fill_fraction_after_slow_capture_table(time_initial);
+
+            // Include the trap density
+            new_fill *= trap_densities[i_trap];
+
+            // Modify for not-enough capture
+            if (enough < 1.0) {
+                new_fill = enough * new_fill +
+                           (1.0 - enough) * watermark_fills[i_wmk * n_traps + i_trap];
+            }
+
+            // Update watermark fill fractions
+            watermark_fills[i_wmk * n_traps + i_trap] = new_fill;
+        }
+    }
+
+    if (enough < 1.0) n_released_and_captured *= enough;
+
+    return n_released + n_released_and_captured;
+}
+
+// ========
+// TrapManagerManager::
+// ========
+/*
+    Class TrapManagerManager.
+
+    Handles the one or multiple trap managers required for models with a mix of
+    trap species and/or multiphase clocking.
+
+    Each individual trap manager tracks the states of one or more trap species.
+    A different trap manager is required for any traps of different types, and
+    separate trap managers are also required for each phase in multiphase
+    clocking, which corresponds to an independent population of traps.
+
+    On declaration, automatically creates the trap managers for each phase
+    and/or watermark type and initialises their watermark arrays. The trap
+    managers of each type are held in the trap_managers_* arrays, each
+    containing one manager of that type for each phase.
+
+    Also, if relevant, modifies the trap managers' trap densities to account for
+    the fraction of traps in different CCD pixel phases.
+
+    Parameters
+    ----------
+    traps_ic : std::valarray<TrapInstantCapture>
+    traps_sc : std::valarray<TrapSlowCapture>
+    traps_ic_co : std::valarray<TrapInstantCaptureContinuum>
+    traps_sc_co : std::valarray<TrapSlowCaptureContinuum>
+        The arrays of trap species, one for each type (which can be empty).
+
+    max_n_transfers : int
+        Same as TrapManagerBase. Is modified internally to include any extra
+        intra-pixel transfers for multiphase clocking.
+
+    ccd : CCD
+        Parameters to describe how electrons fill the volume inside (all phases
+        of) a pixel in a CCD detector.
+
+    dwell_times : std::valarray<double>
+        The time between steps in the clocking sequence, as stored by an ROE
+        object.
+
+        Note: currently assumes the dwell time in each phase is the same for all
+        steps, which might not be true in sequences with n_steps > n_phases.
+
+    Attributes
+    ----------
+    n_traps_ic : int
+    n_traps_sc : int
+    n_traps_ic_co : int
+    n_traps_sc_co : int
+        The number of trap species (if any) of each watermark type.
+
+    trap_managers_ic : std::valarray<TrapManagerInstantCapture>
+    trap_managers_sc : std::valarray<TrapManagerSlowCapture>
+    trap_managers_ic_co : std::valarray<TrapManagerInstantCaptureContinuum>
+    trap_managers_sc_co :
+   std::valarray<TrapManagerSlowCaptureContinuum> For each watermark type, the list of
+   trap manager objects for each phase. Ignored if the corresponding n_*_traps is 0.
+*/
+TrapManagerManager::TrapManagerManager(
+    std::valarray<TrapInstantCapture>& traps_ic,
+    std::valarray<TrapSlowCapture>& traps_sc,
+    std::valarray<TrapInstantCaptureContinuum>& traps_ic_co,
+    std::valarray<TrapSlowCaptureContinuum>& traps_sc_co, int max_n_transfers, CCD ccd,
+    std::valarray<double>& dwell_times)
+    : traps_ic(traps_ic),
+      traps_sc(traps_sc),
+      traps_ic_co(traps_ic_co),
+      traps_sc_co(traps_sc_co),
+      max_n_transfers(max_n_transfers),
+      ccd(ccd) {
+
+    // The number of trap species (if any) of each watermark type
+    n_traps_ic = traps_ic.size();
+    n_traps_sc = traps_sc.size();
+    n_traps_ic_co = traps_ic_co.size();
+    n_traps_sc_co = traps_sc_co.size();
+
+    // Account for the number of clock-sequence steps for the maximum transfers
+    max_n_transfers *= dwell_times.size();
+    this->max_n_transfers = max_n_transfers;
+
+    // ========
+    // Set up the trap manager for each phase, for each watermark type
+    // ========
+    if (n_traps_ic > 0) {
+        trap_managers_ic.resize(ccd.n_phases);
+
+        // Initialise manager and watermarks for each phase
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic[phase_index] = TrapManagerInstantCapture(
+                traps_ic, max_n_transfers, ccd.phases[phase_index],
+                dwell_times[phase_index]);
+
+            // Modify the trap densities in different phases
+            trap_managers_ic[phase_index].trap_densities *=
+                ccd.fraction_of_traps_per_phase[phase_index];
+
+            trap_managers_ic[phase_index].setup();
+        }
+    }
+
+    if (n_traps_sc > 0) {
+        trap_managers_sc.resize(ccd.n_phases);
+
+        // Initialise manager and watermarks for each phase
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc[phase_index] = TrapManagerSlowCapture(
+                traps_sc, max_n_transfers, ccd.phases[phase_index],
+                dwell_times[phase_index]);
+
+            // Modify the trap densities in different phases
+            trap_managers_sc[phase_index].trap_densities *=
+                ccd.fraction_of_traps_per_phase[phase_index];
+
+            trap_managers_sc[phase_index].setup();
+        }
+    }
+
+    if (n_traps_ic_co > 0) {
+        trap_managers_ic_co.resize(ccd.n_phases);
+
+        // Initialise manager and watermarks for each phase
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic_co[phase_index] = TrapManagerInstantCaptureContinuum(
+                traps_ic_co, max_n_transfers, ccd.phases[phase_index],
+                dwell_times[phase_index]);
+
+            // Modify the trap densities in different phases
+            trap_managers_ic_co[phase_index].trap_densities *=
+                ccd.fraction_of_traps_per_phase[phase_index];
+
+            trap_managers_ic_co[phase_index].setup();
+        }
+    }
+
+    if (n_traps_sc_co > 0) {
+        trap_managers_sc_co.resize(ccd.n_phases);
+
+        // Initialise manager and watermarks for each phase
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc_co[phase_index] = TrapManagerSlowCaptureContinuum(
+                traps_sc_co, max_n_transfers, ccd.phases[phase_index],
+                dwell_times[phase_index]);
+
+            // Modify the trap densities in different phases
+            trap_managers_sc_co[phase_index].trap_densities *=
+                ccd.fraction_of_traps_per_phase[phase_index];
+
+            trap_managers_sc_co[phase_index].setup();
+        }
+    }
+}
+
+/*
+    Reset the watermark arrays to empty, for all trap managers.
+*/
+void TrapManagerManager::reset_trap_states() {
+    if (n_traps_ic > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic[phase_index].reset_trap_states();
+        }
+    if (n_traps_sc > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc[phase_index].reset_trap_states();
+        }
+    if (n_traps_ic_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic_co[phase_index].reset_trap_states();
+        }
+    if (n_traps_sc_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc_co[phase_index].reset_trap_states();
+        }
+}
+
+/*
+    Store the watermark arrays to be loaded again later, for all trap managers.
+*/
+void TrapManagerManager::store_trap_states() {
+    if (n_traps_ic > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic[phase_index].store_trap_states();
+        }
+    if (n_traps_sc > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc[phase_index].store_trap_states();
+        }
+    if (n_traps_ic_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic_co[phase_index].store_trap_states();
+        }
+    if (n_traps_sc_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc_co[phase_index].store_trap_states();
+        }
+}
+
+/*
+    Restore the watermark arrays to their saved values, for all trap managers.
+*/
+void TrapManagerManager::restore_trap_states() {
+    if (n_traps_ic > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic[phase_index].restore_trap_states();
+        }
+    if (n_traps_sc > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc[phase_index].restore_trap_states();
+        }
+    if (n_traps_ic_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic_co[phase_index].restore_trap_states();
+        }
+    if (n_traps_sc_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc_co[phase_index].restore_trap_states();
+        }
+}
+
+/*
+    Prune redundant watermarks from watermark arrays, for all trap managers.
+*/
+void TrapManagerManager::prune_watermarks(double min_n_electrons) {
+    //print_v(0,"IC traps\n");
+    if (n_traps_ic > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic[phase_index].prune_watermarks(min_n_electrons);
+        }
+    //print_v(0,"SC traps\n");
+    if (n_traps_sc > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc[phase_index].prune_watermarks(min_n_electrons);
+        }
+    //print_v(0,"ICCR traps\n");
+    if (n_traps_ic_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic_co[phase_index].prune_watermarks(min_n_electrons);
+        }
+    //print_v(0,"SCCR traps\n");
+    if (n_traps_sc_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc_co[phase_index].prune_watermarks(min_n_electrons);
+        }
+}
-- 
2.43.0


From 6f89360584d462a4bc818bb4902817e90b52e320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 04/45] fix: slow capture reaches the level just added at the
 cloud height

---
 src/trap_managers.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 8dc4591..bf27228 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1211,6 +1211,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud above all current watermarks
@@ -1226,6 +1227,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud between or below current watermarks
@@ -1294,11 +1296,14 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
         n_released += frac_released_this_wmk * watermark_volumes[i_wmk];
     }
 
-    // Update the electron cloud
-    n_free_electrons += n_released;
-    cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-    i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    // Update the electron cloud. If nothing was released then it still reaches the
+    // watermark at its height, which the rounded sum of volumes may not reproduce.
+    if (n_released > 0.0) {
+        n_free_electrons += n_released;
+        cloud_fractional_volume =
+            ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+        i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    }
 
     // ========
     // Capture and release electrons below the cloud
@@ -1964,6 +1969,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud above all current watermarks
@@ -1979,6 +1985,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud between or below current watermarks
@@ -2052,11 +2059,14 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
         n_released += n_released_this_wmk * watermark_volumes[i_wmk];
     }
 
-    // Update the electron cloud
-    n_free_electrons += n_released;
-    cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-    i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    // Update the electron cloud. If nothing was released then it still reaches the
+    // watermark at its height, which the rounded sum of volumes may not reproduce.
+    if (n_released > 0.0) {
+        n_free_electrons += n_released;
+        cloud_fractional_volume =
+            ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+        i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    }
 
     // ========
     // Capture and release electrons below the cloud
-- 
2.43.0


From 7b312546603975e61c2b7d26750c3ce45b330b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 05/45] fix: no stray volume beyond the levels when released
 charge lifts the cloud above them

---
 src/trap_managers.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index bf27228..9e6ed4e 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1312,7 +1312,20 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
     if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
-    if (n_released > 0.0) {
+    if (n_released > 0.0 &&
+        i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+        // Cloud above all current watermarks
+        double previous_total_volume = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+            previous_total_volume += watermark_volumes[i_wmk];
+        }
+        watermark_volumes[i_wmk_above_cloud] =
+            cloud_fractional_volume - previous_total_volume;
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+        i_wmk_above_cloud++;
+    } else if (n_released > 0.0) {
         // Original total volume of the watermark
         double previous_total_volume = 0.0;
         for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
@@ -2075,7 +2088,20 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
     if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
-    if (n_released > 0.0) {
+    if (n_released > 0.0 &&
+        i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+        // Cloud above all current watermarks
+        double previous_total_volume = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+            previous_total_volume += watermark_volumes[i_wmk];
+        }
+        watermark_volumes[i_wmk_above_cloud] =
+            cloud_fractional_volume - previous_total_volume;
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+        i_wmk_above_cloud++;
+    } else if (n_released > 0.0) {
         // Original total volume of the watermark
         double previous_total_volume = 0.0;
         for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-- 
2.43.0


From f1c60e254dc13c59cf2bb3dee34e6f7152887497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 06/45] fix: partial capture starts from the level it splits,
 not a superseded one

---
 src/trap_managers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 9e6ed4e..39599c1 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -832,7 +832,7 @@ void TrapManagerInstantCapture::update_watermarks_capture_not_enough(
         watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
         watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
             (std::valarray<double>)watermark_fills[std::slice(
-                i_first_active_wmk * n_traps, n_traps, 1)] *
+                (i_first_active_wmk + 1) * n_traps, n_traps, 1)] *
                 (1.0 - enough) +
             enough * trap_densities; // is this wrong? the new watermark level should be created full
 
@@ -1708,7 +1708,7 @@ void TrapManagerInstantCaptureContinuum::update_watermarks_capture_not_enough(
         watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
         watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
             (std::valarray<double>)watermark_fills[std::slice(
-                i_first_active_wmk * n_traps, n_traps, 1)] *
+                (i_first_active_wmk + 1) * n_traps, n_traps, 1)] *
                 (1.0 - enough) +
             enough * trap_densities;
 
-- 
2.43.0


From a9340f6adef15ee1ca700fea6cccb1ba089ee0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 07/45] fix: pruning leaves no stale levels behind

---
 src/trap_managers.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 39599c1..a06a775 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -448,6 +448,14 @@ void TrapManagerBase::prune_watermarks(double min_n_electrons) {
     }
     n_active_watermarks -= n_watermarks_pruned;
 
+    // Empty the freed watermarks, ready for new ones
+    for (int i_wmk = i_first_active_wmk + n_active_watermarks;
+         i_wmk < i_first_active_wmk + n_active_watermarks + n_watermarks_pruned;
+         i_wmk++) {
+        watermark_volumes[i_wmk] = zeroth_watermark;
+        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] = empty_watermark;
+    }
+
     // Count the total number of electrons in each watermark
     print_v(3,"\n\n Fill fractions after prune (first %d n %d)\n",i_first_active_wmk, n_active_watermarks);
     
-- 
2.43.0


From 91b99d4c797c97901dabe08f69e57ce2345d10f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 08/45] fix: pruning does not push charge into a level too
 empty to hold it

---
 src/trap_managers.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index a06a775..dababe0 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -351,16 +351,22 @@ void TrapManagerBase::prune_watermarks(double min_n_electrons) {
         } else {
             test_value = n_electrons_released_from_wmk_above_cloud(i_wmk_prime);
         } 
-        if (test_value < test_criterion) {
+
+        // Volume this watermark's electrons would fill as part of the one below
+        double n_trapped_electrons_in_last_wmk = n_trapped_electrons_in_watermark(i_wmk_prime - 1);
+
+        double delta_volume_below = watermark_volumes[i_wmk_prime - 1] *
+            n_trapped_electrons_in_this_wmk / n_trapped_electrons_in_last_wmk;
+
+        // Don't dissolve a watermark into a less full one, left by earlier pruning,
+        // that would have to reach beyond it to hold its electrons
+        if (test_value < test_criterion &&
+            delta_volume_below <= watermark_volumes[i_wmk_prime]) {
             
             // Push the small number of electrons down into previous watermark
             // (redistributing them between trap species by keeping fill fractions 
             // as before, but increasing the watermark volume. This is not ideal
             // but ensures no fill fractions ever exceed 1)
-            double n_trapped_electrons_in_last_wmk = n_trapped_electrons_in_watermark(i_wmk_prime - 1);
-                        
-            double delta_volume_below = watermark_volumes[i_wmk_prime - 1] *
-                n_trapped_electrons_in_this_wmk / n_trapped_electrons_in_last_wmk;
 
 /*            // Temp report
             std::valarray<double> fill_fractions_in_down_wmk =
-- 
2.43.0


From f052fe189e7be16f6d09db9c0203b8a6ef9e3e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 09/45] fix: exposed fraction of surface traps between equal
 volumes

---
 src/traps.cpp | 1968 +++++++++++++++++++++++++------------------------
 1 file changed, 986 insertions(+), 982 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index d045d18..316e20d 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -1,982 +1,986 @@
-
-#include "traps.hpp"
-
-#include <gsl/gsl_errno.h>
-#include <gsl/gsl_integration.h>
-#include <gsl/gsl_math.h>
-#include <gsl/gsl_roots.h>
-#include <math.h>
-
-#include <valarray>
-#include <limits>
-
-#include "util.hpp"
-
-// ========
-// TrapInstantCapture::
-// ========
-/*
-    Class TrapInstantCapture.
-
-    For the standard release-then-instant-capture algorithm.
-
-    Controls the density of traps and the timescales/probabilities of
-    capture and release, along with utilities for the watermarking tracking
-    of trap states and the calculation of capture and release.
-
-    Parameters
-    ----------
-    density : double
-        The density of the trap species in a pixel.
-
-    release_timescale : double
-        The release timescale of the trap, in the same units as the time
-        spent in each pixel or phase.
-
-    fractional_volume_none_exposed : double (opt.)
-    fractional_volume_full_exposed : double (opt.)
-        To allow for a non-uniform distribution with volume: the fractional
-        volume of a pixel below which no traps are exposed and above which traps
-        are fully exposed, respectively. Default to 0.0, 0.0 for uniformly
-        distributed traps. Between the two, the density of traps is set to
-        increase linearly. Or set both to the same (non-zero) value for a step
-        function of no traps below that volume and uniformly distributed traps
-        above it. See fill_fraction_from_time_elapsed().
-
-    Attributes
-    ----------
-    release_rate : double
-        The release (or emission) rate (Lindegren (1998) section 3.2).
-*/
-TrapInstantCapture::TrapInstantCapture(
-    double density, double release_timescale, double fractional_volume_none_exposed,
-    double fractional_volume_full_exposed)
-    : density(density),
-      release_timescale(release_timescale),
-      fractional_volume_none_exposed(fractional_volume_none_exposed),
-      fractional_volume_full_exposed(fractional_volume_full_exposed) {
-
-    release_rate = 1.0 / release_timescale;
-
-    // For a non-uniform distribution with volume, modify the density by the
-    // maximum fraction of exposable traps, i.e. the integration over the full
-    // volume of the fractional distribution, such that the trap's total density
-    // per pixel is preserved.
-    if (fractional_volume_full_exposed > 0.0)
-        this->density /= 1.0 - 0.5 * (fractional_volume_none_exposed +
-                                      fractional_volume_full_exposed);
-}
-
-/*
-    Calculate the fraction of filled traps after an amount of elapsed time.
-
-    Parameters
-    ----------
-    time_elapsed : double
-        The total time elapsed since the traps were filled, in the same
-        units as the trap timescales.
-
-    Returns
-    -------
-    fill_fraction : double
-        The remaining fraction of filled traps.
-*/
-double TrapInstantCapture::fill_fraction_from_time_elapsed(double time_elapsed) {
-    return exp(-time_elapsed / release_timescale);
-}
-
-/*
-    Calculate the fraction of traps exposed between two fractional volumes, to
-    allow for a non-uniform distribution with volume.
-
-    Simple idea but hard to put into words...
-
-    Assume a linear increase with volume (v) in the fraction of traps between
-    fractional_volume_none_exposed (a) and fractional_volume_full_exposed (a),
-    i.e. f(v) = (v - a) / (b - a), capped between zero and one. Here integrate
-    f(v) from fractional_volume_low (v_l) to high (v_h), then divide by the
-    total fractional volume to get the right "units", as it were.
-
-    Parameters
-    ----------
-    fractional_volume_low : double
-    fractional_volume_high : double
-        Two volumes (e.g. of a watermark) as a fraction of the pixel (or phase).
-
-    Returns
-    -------
-    fraction_exposed_traps : double
-        The fraction of traps exposed between these volumes, divided by the
-        volume. For default evenly distributed traps, the fraction exposed and
-        the fractional volume are the same, in which case this is always 1.0.
-*/
-double TrapInstantCapture::fraction_traps_exposed_per_fractional_volume(
-    double fractional_volume_low, double fractional_volume_high) {
-
-    if (fractional_volume_low >= fractional_volume_full_exposed)
-        return 1.0;
-    else if (fractional_volume_high <= fractional_volume_none_exposed)
-        return 0.0;
-
-    double fraction;
-    // Integrate f(v) from v_l to v_h
-    if (fractional_volume_none_exposed == fractional_volume_full_exposed) {
-        // Step function. v_h - b
-        fraction = fractional_volume_high - fractional_volume_full_exposed;
-    } else {
-        // v_l = max(v_l, a), v_h = min(v_h, b)
-        // int_v_l^v_h f dv = (1/2 v_h^2 - a v_h - 1/2 v_l^2 + a v_l) / (b - a)
-        double v_low = std::max(fractional_volume_low, fractional_volume_none_exposed);
-        double v_high =
-            std::min(fractional_volume_high, fractional_volume_full_exposed);
-        fraction = (0.5 * v_high * v_high - fractional_volume_none_exposed * v_high -
-                    0.5 * v_low * v_low + fractional_volume_none_exposed * v_low) /
-                   (fractional_volume_full_exposed - fractional_volume_none_exposed);
-        // + (v_h - b)
-        if (fractional_volume_high > fractional_volume_full_exposed)
-            fraction += fractional_volume_high - fractional_volume_full_exposed;
-    }
-
-    // Divide by the total fractional volume
-    return fraction / (fractional_volume_high - fractional_volume_low);
-}
-
-// ========
-// TrapSlowCapture::
-// ========
-/*
-    Class TrapSlowCapture.
-
-    For traps with a non-instant capture time.
-
-    Parameters
-    ----------
-    density : double
-        The density of the trap species in a pixel.
-
-    release_timescale : double
-        The release timescale of the trap, in the same units as the time
-        spent in each pixel or phase.
-
-    capture_timescale : double
-        The capture timescale of the trap.
-
-    Attributes
-    ----------
-    release_rate, capture_rate : double
-        The release and capture rates (Lindegren (1998) section 3.2).
-*/
-TrapSlowCapture::TrapSlowCapture(
-    double density, double release_timescale, double capture_timescale)
-    : TrapInstantCapture(density, release_timescale),
-      capture_timescale(capture_timescale) {
-
-    if (capture_timescale != 0.0)
-        capture_rate = 1.0 / capture_timescale;
-    else
-        capture_rate = 0.0;
-}
-
-// ========
-// TrapInstantCaptureContinuum::
-// ========
-/*
-    Class TrapInstantCaptureContinuum.
-
-    For a trap species with a continuum (log-normal distribution) of release
-    timescales, and instant capture.
-
-    i.e. Density as function of release timecsale is set by:
-    n(tau) = exp[-(log(tau) - log(mu))^2 / (2*sigma^2)] / (tau * sigma * sqrt(2*pi))
-
-    Parameters
-    ----------
-    density : double
-        The density of the trap species in a pixel.
-
-    release_timescale : double
-        The median release timescale of the traps, in the same units as the time
-        spent in each pixel or phase.
-
-    release_timescale_sigma : double
-        The sigma of release lifetimes of the traps.
-*/
-TrapInstantCaptureContinuum::TrapInstantCaptureContinuum(
-    double density, double release_timescale, double release_timescale_sigma)
-    : TrapInstantCapture(density, release_timescale),
-      release_timescale_sigma(release_timescale_sigma) {}
-
-/*
-    Calculate the fraction of filled traps after an amount of elapsed time.
-
-    Found by integrating the trap fill fraction multiplied by the trap density
-    distribution with trap release timescales:
-        f = int_0^inf n(tau) exp(-t_e/tau) dtau
-
-    Integrating from 0 to infinity can fail for very small mu and/or sigma, so
-    instead integrate from 0 to (mu + 100 sigma) for a more reliable and very
-    close approximation.
-
-    (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
-
-    Parameters
-    ----------
-    time_elapsed : double
-        The total time elapsed since the traps were filled, in the same units
-        as the trap timescales.
-
-    workspace : gsl_integration_workspace* (opt.)
-        An existing GSL workspace memory handler for the integration, or nullptr
-        to create a new one.
-
-    Returns
-    -------
-    fill_fraction : double
-        The fraction of filled traps.
-*/
-struct TrICCo_ff_from_te_params {
-    double time_elapsed;
-    double mu;
-    double sigma;
-};
-
-double TrICCo_ff_from_te_integrand(double tau, void* params) {
-    struct TrICCo_ff_from_te_params* p = (struct TrICCo_ff_from_te_params*)params;
-
-    // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
-
-    // To integrate: n(tau) * fill_frac(tau) dtau
-    return n * exp(-p->time_elapsed / tau);
-}
-
-double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
-    double time_elapsed, gsl_integration_workspace* workspace) {
-    // Completely full or empty, or unset watermark
-    if (time_elapsed == 0.0)
-        return 1.0;
-    else if (time_elapsed >= std::numeric_limits<double>::max())
-        return 0.0;
-    else if (time_elapsed == -1.0)
-        return 0.0;
-
-    // Prep the integration
-    double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
-    const double epsabs = 0.0;
-    const double epsrel = 1e-6;
-    const int limit = 100;
-    const int key = GSL_INTEG_GAUSS51;
-    if (!workspace) {
-        workspace = gsl_integration_workspace_alloc(limit);
-    }
-    struct TrICCo_ff_from_te_params params = {
-        time_elapsed, release_timescale, release_timescale_sigma};
-    gsl_function F;
-    F.function = &TrICCo_ff_from_te_integrand;
-    F.params = &params;
-
-    // Integrate F.function from min to max
-    int status = gsl_integration_qag(
-        &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
-
-    if (status) error("Integration failed, status %d", status);
-
-    return result;
-}
-
-/*
-    Calculate the amount of elapsed time from the fraction of filled traps.
-
-    Found by finding where fill_fraction_from_time_elapsed(time_elapsed) is
-    equal to the required fill_fraction, using a root finder:
-        f(t_e) - f' = 0
-
-    (www.gnu.org/software/gsl/doc/html/roots.html)
-
-    Parameters
-    ----------
-    fill_fraction : double
-        The fraction of filled traps.
-
-    time_max : double
-        The maximum possible time, used to initialise the root finder. e.g. the
-        cumulative dwell time over all transfers.
-
-    workspace : gsl_integration_workspace* (opt.)
-        An existing GSL workspace memory handler for the integration, or nullptr
-        to create a new one.
-
-    Returns
-    -------
-    time_elapsed : double
-        The total time elapsed since the traps were filled, in the same units
-        as the trap timescales.
-*/
-struct TrICCo_te_from_ff_params {
-    TrapInstantCaptureContinuum* trap;
-    double fill_fraction;
-    gsl_integration_workspace* workspace;
-};
-
-double TrICCo_te_from_ff_root_function(double time_elapsed, void* params) {
-    struct TrICCo_te_from_ff_params* p = (struct TrICCo_te_from_ff_params*)params;
-
-    // To find time such that: fill_fraction(time) - fill_fraction = 0
-    return p->trap->fill_fraction_from_time_elapsed(time_elapsed, p->workspace) -
-           p->fill_fraction;
-}
-
-double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction(
-    double fill_fraction, double time_max, gsl_integration_workspace* workspace) {
-    // Completely full or empty, or unset watermark
-    if (fill_fraction == 1.0)
-        return 0.0;
-    else if (fill_fraction == 0.0)
-        return std::numeric_limits<double>::max();
-    else if (fill_fraction == -1.0)
-        return 0.0;
-
-    // Prep for the integration
-    if (!workspace) {
-        const int limit = 100;
-        workspace = gsl_integration_workspace_alloc(limit);
-    }
-
-    // Prep the root finder
-    double root;
-    int status;
-    const int max_iter = 100;
-    const double epsabs = 0.0;
-    const double epsrel = 1e-6;
-    const gsl_root_fsolver_type* T;
-    gsl_root_fsolver* s;
-    T = gsl_root_fsolver_brent;
-    s = gsl_root_fsolver_alloc(T);
-    struct TrICCo_te_from_ff_params params = {this, fill_fraction, workspace};
-    gsl_function F;
-    F.function = &TrICCo_te_from_ff_root_function;
-    F.params = &params;
-
-    // Bounding values
-    double x_lo = 0.0;
-    double x_hi = time_max;
-
-    // Iterate the root finder
-    int iter = 0;
-    gsl_root_fsolver_set(s, &F, x_lo, x_hi);
-    do {
-        iter++;
-        status = gsl_root_fsolver_iterate(s);
-        root = gsl_root_fsolver_root(s);
-        x_lo = gsl_root_fsolver_x_lower(s);
-        x_hi = gsl_root_fsolver_x_upper(s);
-        status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
-    } while (status == GSL_CONTINUE && iter < max_iter);
-
-    return root;
-}
-
-/*
-    Prepare tables of fill fractions and elapsed times for interpolation.
-
-    Use logarithmically spaced (decreasing) times to calculate the corresponding
-    (monotonically increasing) table of fill fractions. So no need to actually
-    store the elapsed times.
-
-    Parameters
-    ----------
-    time_min : double
-    time_max : double
-        The minimum and maximum elapsed times to set the table limits, e.g. a
-        single dwell time and the cumulative dwell time over all transfers.
-
-    n_intp : int
-        The number of interpolation values in the arrays.
-
-    Sets
-    ----
-    fill_fraction_table : std::valarray<double>
-        The array of fill fractions.
-
-    fill_min : double
-    fill_max : double
-        The fill fractions corresponding to the maximum and minimum times.
-
-    d_log_time : double
-        The logarithmic interval between successive (decreasing) times.
-*/
-void TrapInstantCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
-    double time_min, double time_max, int n_intp) {
-
-    // Prep for the GSL integration
-    const int limit = 100;
-    gsl_integration_workspace* workspace = gsl_integration_workspace_alloc(limit);
-
-    // Set up the arrays and limits
-    fill_fraction_table = std::valarray<double>(0.0, n_intp);
-    this->n_intp = n_intp;
-    this->time_min = time_min;
-    this->time_max = time_max;
-    fill_min = fill_fraction_from_time_elapsed(time_max, workspace);
-    fill_max = fill_fraction_from_time_elapsed(time_min, workspace);
-    d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
-    double time_i;
-
-    // Tabulate the values corresponding to the equally log-spaced inputs
-    for (int i = 0; i < n_intp; i++) {
-        time_i = exp(log(time_max) - i * d_log_time);
-        fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
-    }
-}
-
-/*
-    Calculate the fraction of filled traps after an amount of elapsed time,
-    using previously tabulated values for interpolation.
-
-    Parameters
-    ----------
-    time_elapsed : double
-        The total time elapsed since the traps were filled, in the same units
-        as the trap timescales.
-
-    Returns
-    -------
-    fill_fraction : double
-        The fraction of filled traps.
-*/
-double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed_table(
-    double time_elapsed) {
-    // Completely full or empty, or unset watermark
-    if (time_elapsed == 0.0)
-        return 1.0;
-    else if (time_elapsed >= std::numeric_limits<double>::max())
-        return 0.0;
-    else if (time_elapsed == -1.0)
-        return 0.0;
-
-    // Get the index and interpolation factor
-    double intp = (log(time_max) - log(time_elapsed)) / d_log_time;
-    int idx = (int)std::floor(intp);
-    intp = intp - idx;
-
-    // Extrapolate if outside the table
-    if (idx < 0) {
-        intp += idx;
-        idx = 0;
-    } else if (idx >= n_intp - 1) {
-        intp += idx - (n_intp - 2);
-        idx = n_intp - 2;
-    }
-
-    // Interpolate
-    double fill =
-        (1.0 - intp) * fill_fraction_table[idx] + intp * fill_fraction_table[idx + 1];
-
-    return clamp(fill, 0.0, 1.0);
-}
-
-/*
-    Calculate the amount of elapsed time from the fraction of filled traps,
-    using previously tabulated values for interpolation.
-
-    Parameters
-    ----------
-    fill_fraction : double
-        The fraction of filled traps.
-
-    Returns
-    -------
-    time_elapsed : double
-        The total time elapsed since the traps were filled, in the same units
-        as the trap timescales.
-*/
-double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction_table(
-    double fill_fraction) {
-    // Completely full or empty, or unset watermark
-    if (fill_fraction == 1.0)
-        return 0.0;
-    else if (fill_fraction == 0.0)
-        return std::numeric_limits<double>::max();
-    else if (fill_fraction == -1.0)
-        return 0.0;
-
-    // Find the index by searching the table
-    int idx = std::upper_bound(
-                  std::begin(fill_fraction_table), std::end(fill_fraction_table),
-                  fill_fraction) -
-              std::begin(fill_fraction_table) - 1;
-
-    // Extrapolate if outside the table
-    if (idx < 0)
-        idx = 0;
-    else if (idx == n_intp - 1)
-        idx = n_intp - 2;
-
-    // Interpolation factor
-    double intp = (fill_fraction - fill_fraction_table[idx]) /
-                  (fill_fraction_table[idx + 1] - fill_fraction_table[idx]);
-
-    // Interpolate
-    return exp(log(time_max) - (idx + intp) * d_log_time);
-}
-
-// ========
-// TrapSlowCaptureContinuum::
-// ========
-/*
-    Class TrapSlowCaptureContinuum.
-
-    For traps with a non-instant capture time, and a continuum (log-normal
-    distribution) of release timescales.
-
-    i.e. A combination of the TrapSlowCapture and TrapInstantCaptureContinuum models.
-
-    Parameters
-    ----------
-    density : double
-        The density of the trap species in a pixel.
-
-    release_timescale : double
-        The median release timescale of the traps, in the same units as the time
-        spent in each pixel or phase.
-
-    release_timescale_sigma : double
-        The sigma of release lifetimes of the traps.
-
-    capture_timescale : double
-        The capture timescale of the trap.
-*/
-TrapSlowCaptureContinuum::TrapSlowCaptureContinuum(
-    double density, double release_timescale, double release_timescale_sigma,
-    double capture_timescale)
-    : TrapInstantCapture(density, release_timescale),
-      release_timescale_sigma(release_timescale_sigma),
-      capture_timescale(capture_timescale) {
-
-    if (capture_timescale != 0.0)
-        capture_rate = 1.0 / capture_timescale;
-    else
-        capture_rate = 0.0;
-}
-
-/*
-    Same as TrapInstantCaptureContinuum
-*/
-struct TrSCCo_ff_from_te_params {
-    double time_elapsed;
-    double mu;
-    double sigma;
-};
-
-double TrSCCo_ff_from_te_integrand(double tau, void* params) {
-    struct TrSCCo_ff_from_te_params* p = (struct TrSCCo_ff_from_te_params*)params;
-
-    // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
-
-    // To integrate: n(tau) * fill_frac(tau) dtau
-    return n * exp(-p->time_elapsed / tau);
-}
-
-double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
-    double time_elapsed, gsl_integration_workspace* workspace) {
-    // Completely full or empty, or unset watermark
-    if (time_elapsed == 0.0)
-        return 1.0;
-    else if (time_elapsed >= std::numeric_limits<double>::max())
-        return 0.0;
-    else if (time_elapsed == -1.0)
-        return 0.0;
-
-    // Prep the integration
-    double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
-    const double epsabs = 0.0;
-    const double epsrel = 1e-6;
-    const int limit = 100;
-    const int key = GSL_INTEG_GAUSS51;
-    if (!workspace) {
-        workspace = gsl_integration_workspace_alloc(limit);
-    }
-    struct TrSCCo_ff_from_te_params params = {
-        time_elapsed, release_timescale, release_timescale_sigma};
-    gsl_function F;
-    F.function = &TrSCCo_ff_from_te_integrand;
-    F.params = &params;
-
-    // Integrate F.function from min to max
-    int status = gsl_integration_qag(
-        &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
-
-    if (status) error("Integration failed, status %d", status);
-
-    return result;
-}
-
-/*
-    Same as TrapInstantCaptureContinuum
-*/
-struct TrSCCo_te_from_ff_params {
-    TrapSlowCaptureContinuum* trap;
-    double fill_fraction;
-    gsl_integration_workspace* workspace;
-};
-
-double TrSCCo_te_from_ff_root_function(double time_elapsed, void* params) {
-    struct TrSCCo_te_from_ff_params* p = (struct TrSCCo_te_from_ff_params*)params;
-
-    // To find time such that: fill_fraction(time) - fill_fraction = 0
-    return p->trap->fill_fraction_from_time_elapsed(time_elapsed, p->workspace) -
-           p->fill_fraction;
-}
-
-double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction(
-    double fill_fraction, double time_max, gsl_integration_workspace* workspace) {
-    // Completely full or empty, or unset watermark
-    if (fill_fraction == 1.0)
-        return 0.0;
-    else if (fill_fraction == 0.0)
-        return std::numeric_limits<double>::max();
-    else if (fill_fraction == -1.0)
-        return 0.0;
-
-    // Prep for the integration
-    if (!workspace) {
-        const int limit = 100;
-        workspace = gsl_integration_workspace_alloc(limit);
-    }
-
-    // Prep the root finder
-    double root;
-    int status;
-    const int max_iter = 100;
-    const double epsabs = 0.0;
-    const double epsrel = 1e-6;
-    const gsl_root_fsolver_type* T;
-    gsl_root_fsolver* s;
-    T = gsl_root_fsolver_brent;
-    s = gsl_root_fsolver_alloc(T);
-    struct TrSCCo_te_from_ff_params params = {this, fill_fraction, workspace};
-    gsl_function F;
-    F.function = &TrSCCo_te_from_ff_root_function;
-    F.params = &params;
-
-    // Bounding values
-    double x_lo = 0.0;
-    double x_hi = time_max;
-
-    // Iterate the root finder
-    int iter = 0;
-    gsl_root_fsolver_set(s, &F, x_lo, x_hi);
-    do {
-        iter++;
-        status = gsl_root_fsolver_iterate(s);
-        root = gsl_root_fsolver_root(s);
-        x_lo = gsl_root_fsolver_x_lower(s);
-        x_hi = gsl_root_fsolver_x_upper(s);
-        status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
-    } while (status == GSL_CONTINUE && iter < max_iter);
-
-    return root;
-}
-
-/*
-    Same as TrapInstantCaptureContinuum
-*/
-void TrapSlowCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
-    double time_min, double time_max, int n_intp) {
-
-    // Prep for the GSL integration
-    const int limit = 100;
-    gsl_integration_workspace* workspace = gsl_integration_workspace_alloc(limit);
-
-    // Set up the arrays and limits
-    fill_fraction_table = std::valarray<double>(0.0, n_intp);
-    this->n_intp = n_intp;
-    this->time_min = time_min;
-    this->time_max = time_max;
-    fill_min = fill_fraction_from_time_elapsed(time_max, workspace);
-    fill_max = fill_fraction_from_time_elapsed(time_min, workspace);
-    d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
-    double time_i;
-
-    // Tabulate the values corresponding to the equally log-spaced inputs
-    for (int i = 0; i < n_intp; i++) {
-        time_i = exp(log(time_max) - i * d_log_time);
-        fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
-    }
-}
-
-/*
-    Same as TrapInstantCaptureContinuum
-*/
-double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed_table(
-    double time_elapsed) {
-    // Completely full or empty, or unset watermark
-    if (time_elapsed == 0.0)
-        return 1.0;
-    else if (time_elapsed >= std::numeric_limits<double>::max())
-        return 0.0;
-    else if (time_elapsed == -1.0)
-        return 0.0;
-
-    // Get the index and interpolation factor
-    double intp = (log(time_max) - log(time_elapsed)) / d_log_time;
-    int idx = (int)std::floor(intp);
-    intp = intp - idx;
-
-    // Extrapolate if outside the table
-    if (idx < 0) {
-        intp += idx;
-        idx = 0;
-    } else if (idx >= n_intp - 1) {
-        intp += idx - (n_intp - 2);
-        idx = n_intp - 2;
-    }
-
-    // Interpolate
-    double fill =
-        (1.0 - intp) * fill_fraction_table[idx] + intp * fill_fraction_table[idx + 1];
-
-    return clamp(fill, 0.0, 1.0);
-}
-
-/*
-    Same as TrapInstantCaptureContinuum
-*/
-double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction_table(
-    double fill_fraction) {
-    // Completely full or empty, or unset watermark
-    if (fill_fraction == 1.0)
-        return 0.0;
-    else if (fill_fraction == 0.0)
-        return std::numeric_limits<double>::max();
-    else if (fill_fraction == -1.0)
-        return 0.0;
-
-    // Find the index by searching the table
-    int idx = std::upper_bound(
-                  std::begin(fill_fraction_table), std::end(fill_fraction_table),
-                  fill_fraction) -
-              std::begin(fill_fraction_table) - 1;
-
-    // Extrapolate if outside the table
-    if (idx < 0)
-        idx = 0;
-    else if (idx == n_intp - 1)
-        idx = n_intp - 2;
-
-    // Interpolation factor
-    double intp = (fill_fraction - fill_fraction_table[idx]) /
-                  (fill_fraction_table[idx + 1] - fill_fraction_table[idx]);
-
-    // Interpolate
-    return exp(log(time_max) - (idx + intp) * d_log_time);
-}
-
-/*
-    Calculate the fraction of filled traps after slow-capture (and release).
-
-    Found by integrating the trap density distribution multiplied by the final
-    fill fraction, which must be calculated accounting for the dependency of
-    both the initial fill fraction and the fill probabilities on the release
-    lifetime distribution:
-        f(tau) = f_0(tau) f_f(tau) + (1 - f_0(tau)) f_e(tau)
-        f = int_0^inf n(tau) f(tau) dtau
-
-    Integrating from 0 to infinity can fail for very small mu and/or sigma, so
-    instead integrate from 0 to (mu + 100 sigma) for a more reliable and very
-    close approximation.
-
-    (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
-
-    Parameters
-    ----------
-    time_elapsed : double
-        The approximate, effective time elapsed since the traps were filled, in
-        the same units as the trap timescales.
-
-    dwell_time : double
-        The time spent in this pixel or phase, in the same units as the trap
-        timescales.
-
-    workspace : gsl_integration_workspace* (opt.)
-        An existing GSL workspace memory handler for the integration, or nullptr
-        to create a new one.
-
-    Returns
-    -------
-    fill_fraction : double
-        The fraction of filled traps.
-*/
-struct TrSCCo_ff_after_sc_params {
-    double time_elapsed;
-    double mu;
-    double sigma;
-    double capture_rate;
-    double dwell_time;
-};
-
-double TrSCCo_ff_after_sc_integrand(double tau, void* params) {
-    struct TrSCCo_ff_after_sc_params* p = (struct TrSCCo_ff_after_sc_params*)params;
-
-    // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
-
-    // Rates and fill probabilities
-    double release_rate = 1.0 / tau;
-    double total_rate = p->capture_rate + release_rate;
-    double exponential_factor = (1 - exp(-total_rate * p->dwell_time)) / total_rate;
-    double fill_probability_from_empty = p->capture_rate * exponential_factor;
-    double fill_probability_from_full = 1.0 - release_rate * exponential_factor;
-
-    // Initial fill fraction
-    double f_0;
-    if (p->time_elapsed == 0.0)
-        f_0 = 1.0;
-    else if (p->time_elapsed >= std::numeric_limits<double>::max())
-        f_0 = 0.0;
-    else
-        f_0 = exp(-p->time_elapsed * release_rate);
-
-    // To integrate: n(tau) * new_fill(tau) dtau
-    return n * (f_0 * fill_probability_from_full +
-                (1.0 - f_0) * fill_probability_from_empty);
-}
-
-double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
-    double time_elapsed, double dwell_time, gsl_integration_workspace* workspace) {
-    // Prep the integration
-    double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
-    const double epsabs = 0.0;
-    const double epsrel = 1e-6;
-    const int limit = 100;
-    const int key = GSL_INTEG_GAUSS51;
-    if (!workspace) {
-        workspace = gsl_integration_workspace_alloc(limit);
-    }
-    struct TrSCCo_ff_after_sc_params params = {
-        time_elapsed, release_timescale, release_timescale_sigma, capture_rate,
-        dwell_time};
-    gsl_function F;
-    F.function = &TrSCCo_ff_after_sc_integrand;
-    F.params = &params;
-
-    // Integrate F.function from min to max
-    int status = gsl_integration_qag(
-        &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
-
-    if (status) error("Integration failed, status %d", status);
-
-    return result;
-}
-
-/*
-    Prepare tables of fill fractions and elapsed times for interpolation of
-    fill fractions after slow capture (and release).
-
-    Use logarithmically spaced (decreasing) times to calculate the corresponding
-    (monotonically increasing) table of fill fractions. So no need to actually
-    store the elapsed times.
-
-    Parameters
-    ----------
-    dwell_time : double
-        The time spent in this pixel or phase, in the same units as the trap
-        timescales.
-
-    time_min : double
-    time_max : double
-        The minimum and maximum elapsed times to set the table limits, e.g. a
-        single dwell time and the cumulative dwell time over all transfers.
-
-    n_intp : int
-        The number of interpolation values in the arrays.
-
-    Sets
-    ----
-    fill_fraction_capture_table : std::valarray<double>
-        The array of fill fractions.
-
-    fill_capture_long_time : double
-        The should-be-converged fill fraction from a very long elapsed time.
-*/
-void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
-    double dwell_time, double time_min, double time_max, int n_intp) {
-    // Prep for the GSL integration
-    const int limit = 100;
-    gsl_integration_workspace* workspace = gsl_integration_workspace_alloc(limit);
-
-    // Set up the arrays and limits
-    fill_fraction_capture_table = std::valarray<double>(0.0, n_intp);
-    this->n_intp = n_intp;
-    this->time_min = time_min;
-    this->time_max = time_max;
-    fill_capture_min =
-        fill_fraction_after_slow_capture(time_max, dwell_time, workspace);
-    fill_capture_max =
-        fill_fraction_after_slow_capture(time_min, dwell_time, workspace);
-    fill_capture_long_time =
-        fill_fraction_after_slow_capture(time_max * 100, dwell_time, workspace);
-    d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
-    double time_i;
-
-    // Tabulate the values corresponding to the equally log-spaced inputs
-    for (int i = 0; i < n_intp; i++) {
-        time_i = exp(log(time_max) - i * d_log_time);
-        fill_fraction_capture_table[i] =
-            fill_fraction_after_slow_capture(time_i, dwell_time, workspace);
-    }
-}
-
-/*
-    Calculate the fraction of filled traps after slow-capture (and release),
-    using previously tabulated values for interpolation.
-
-    Parameters
-    ----------
-    time_elapsed : double
-        The approximate, effective time elapsed since the traps were filled, in
-        the same units as the trap timescales.
-
-    Returns
-    -------
-    fill_fraction : double
-        The fraction of filled traps.
-*/
-double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture_table(
-    double time_elapsed) {
-    // Very long elapsed time, or unset watermark
-    if (time_elapsed >= std::numeric_limits<double>::max())
-        return fill_capture_long_time;
-    else if (time_elapsed == -1.0)
-        return 0.0;
-
-    // Get the index and interpolation factor
-    double intp = (log(time_max) - log(time_elapsed)) / d_log_time;
-    int idx = (int)std::floor(intp);
-    intp = intp - idx;
-
-    // Extrapolate if outside the table
-    if (idx < 0) {
-        intp += idx;
-        idx = 0;
-    } else if (idx >= n_intp - 1) {
-        intp += idx - (n_intp - 2);
-        idx = n_intp - 2;
-    }
-
-    // Interpolate
-    double fill = (1.0 - intp) * fill_fraction_capture_table[idx] +
-                  intp * fill_fraction_capture_table[idx + 1];
-
-    return clamp(fill, 0.0, 1.0);
-}
+
+#include "traps.hpp"
+
+#include <gsl/gsl_errno.h>
+#include <gsl/gsl_integration.h>
+#include <gsl/gsl_math.h>
+#include <gsl/gsl_roots.h>
+#include <math.h>
+
+#include <valarray>
+#include <limits>
+
+#include "util.hpp"
+
+// ========
+// TrapInstantCapture::
+// ========
+/*
+    Class TrapInstantCapture.
+
+    For the standard release-then-instant-capture algorithm.
+
+    Controls the density of traps and the timescales/probabilities of
+    capture and release, along with utilities for the watermarking tracking
+    of trap states and the calculation of capture and release.
+
+    Parameters
+    ----------
+    density : double
+        The density of the trap species in a pixel.
+
+    release_timescale : double
+        The release timescale of the trap, in the same units as the time
+        spent in each pixel or phase.
+
+    fractional_volume_none_exposed : double (opt.)
+    fractional_volume_full_exposed : double (opt.)
+        To allow for a non-uniform distribution with volume: the fractional
+        volume of a pixel below which no traps are exposed and above which traps
+        are fully exposed, respectively. Default to 0.0, 0.0 for uniformly
+        distributed traps. Between the two, the density of traps is set to
+        increase linearly. Or set both to the same (non-zero) value for a step
+        function of no traps below that volume and uniformly distributed traps
+        above it. See fill_fraction_from_time_elapsed().
+
+    Attributes
+    ----------
+    release_rate : double
+        The release (or emission) rate (Lindegren (1998) section 3.2).
+*/
+TrapInstantCapture::TrapInstantCapture(
+    double density, double release_timescale, double fractional_volume_none_exposed,
+    double fractional_volume_full_exposed)
+    : density(density),
+      release_timescale(release_timescale),
+      fractional_volume_none_exposed(fractional_volume_none_exposed),
+      fractional_volume_full_exposed(fractional_volume_full_exposed) {
+
+    release_rate = 1.0 / release_timescale;
+
+    // For a non-uniform distribution with volume, modify the density by the
+    // maximum fraction of exposable traps, i.e. the integration over the full
+    // volume of the fractional distribution, such that the trap's total density
+    // per pixel is preserved.
+    if (fractional_volume_full_exposed > 0.0)
+        this->density /= 1.0 - 0.5 * (fractional_volume_none_exposed +
+                                      fractional_volume_full_exposed);
+}
+
+/*
+    Calculate the fraction of filled traps after an amount of elapsed time.
+
+    Parameters
+    ----------
+    time_elapsed : double
+        The total time elapsed since the traps were filled, in the same
+        units as the trap timescales.
+
+    Returns
+    -------
+    fill_fraction : double
+        The remaining fraction of filled traps.
+*/
+double TrapInstantCapture::fill_fraction_from_time_elapsed(double time_elapsed) {
+    return exp(-time_elapsed / release_timescale);
+}
+
+/*
+    Calculate the fraction of traps exposed between two fractional volumes, to
+    allow for a non-uniform distribution with volume.
+
+    Simple idea but hard to put into words...
+
+    Assume a linear increase with volume (v) in the fraction of traps between
+    fractional_volume_none_exposed (a) and fractional_volume_full_exposed (a),
+    i.e. f(v) = (v - a) / (b - a), capped between zero and one. Here integrate
+    f(v) from fractional_volume_low (v_l) to high (v_h), then divide by the
+    total fractional volume to get the right "units", as it were.
+
+    Parameters
+    ----------
+    fractional_volume_low : double
+    fractional_volume_high : double
+        Two volumes (e.g. of a watermark) as a fraction of the pixel (or phase).
+
+    Returns
+    -------
+    fraction_exposed_traps : double
+        The fraction of traps exposed between these volumes, divided by the
+        volume. For default evenly distributed traps, the fraction exposed and
+        the fractional volume are the same, in which case this is always 1.0.
+*/
+double TrapInstantCapture::fraction_traps_exposed_per_fractional_volume(
+    double fractional_volume_low, double fractional_volume_high) {
+
+    if (fractional_volume_low >= fractional_volume_full_exposed)
+        return 1.0;
+    else if (fractional_volume_high <= fractional_volume_none_exposed)
+        return 0.0;
+    else if (fractional_volume_low >= fractional_volume_high)
+        // No volume between them, so simply f(v)
+        return (fractional_volume_low - fractional_volume_none_exposed) /
+               (fractional_volume_full_exposed - fractional_volume_none_exposed);
+
+    double fraction;
+    // Integrate f(v) from v_l to v_h
+    if (fractional_volume_none_exposed == fractional_volume_full_exposed) {
+        // Step function. v_h - b
+        fraction = fractional_volume_high - fractional_volume_full_exposed;
+    } else {
+        // v_l = max(v_l, a), v_h = min(v_h, b)
+        // int_v_l^v_h f dv = (1/2 v_h^2 - a v_h - 1/2 v_l^2 + a v_l) / (b - a)
+        double v_low = std::max(fractional_volume_low, fractional_volume_none_exposed);
+        double v_high =
+            std::min(fractional_volume_high, fractional_volume_full_exposed);
+        fraction = (0.5 * v_high * v_high - fractional_volume_none_exposed * v_high -
+                    0.5 * v_low * v_low + fractional_volume_none_exposed * v_low) /
+                   (fractional_volume_full_exposed - fractional_volume_none_exposed);
+        // + (v_h - b)
+        if (fractional_volume_high > fractional_volume_full_exposed)
+            fraction += fractional_volume_high - fractional_volume_full_exposed;
+    }
+
+    // Divide by the total fractional volume
+    return fraction / (fractional_volume_high - fractional_volume_low);
+}
+
+// ========
+// TrapSlowCapture::
+// ========
+/*
+    Class TrapSlowCapture.
+
+    For traps with a non-instant capture time.
+
+    Parameters
+    ----------
+    density : double
+        The density of the trap species in a pixel.
+
+    release_timescale : double
+        The release timescale of the trap, in the same units as the time
+        spent in each pixel or phase.
+
+    capture_timescale : double
+        The capture timescale of the trap.
+
+    Attributes
+    ----------
+    release_rate, capture_rate : double
+        The release and capture rates (Lindegren (1998) section 3.2).
+*/
+TrapSlowCapture::TrapSlowCapture(
+    double density, double release_timescale, double capture_timescale)
+    : TrapInstantCapture(density, release_timescale),
+      capture_timescale(capture_timescale) {
+
+    if (capture_timescale != 0.0)
+        capture_rate = 1.0 / capture_timescale;
+    else
+        capture_rate = 0.0;
+}
+
+// ========
+// TrapInstantCaptureContinuum::
+// ========
+/*
+    Class TrapInstantCaptureContinuum.
+
+    For a trap species with a continuum (log-normal distribution) of release
+    timescales, and instant capture.
+
+    i.e. Density as function of release timecsale is set by:
+    n(tau) = exp[-(log(tau) - log(mu))^2 / (2*sigma^2)] / (tau * sigma * sqrt(2*pi))
+
+    Parameters
+    ----------
+    density : double
+        The density of the trap species in a pixel.
+
+    release_timescale : double
+        The median release timescale of the traps, in the same units as the time
+        spent in each pixel or phase.
+
+    release_timescale_sigma : double
+        The sigma of release lifetimes of the traps.
+*/
+TrapInstantCaptureContinuum::TrapInstantCaptureContinuum(
+    double density, double release_timescale, double release_timescale_sigma)
+    : TrapInstantCapture(density, release_timescale),
+      release_timescale_sigma(release_timescale_sigma) {}
+
+/*
+    Calculate the fraction of filled traps after an amount of elapsed time.
+
+    Found by integrating the trap fill fraction multiplied by the trap density
+    distribution with trap release timescales:
+        f = int_0^inf n(tau) exp(-t_e/tau) dtau
+
+    Integrating from 0 to infinity can fail for very small mu and/or sigma, so
+    instead integrate from 0 to (mu + 100 sigma) for a more reliable and very
+    close approximation.
+
+    (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
+
+    Parameters
+    ----------
+    time_elapsed : double
+        The total time elapsed since the traps were filled, in the same units
+        as the trap timescales.
+
+    workspace : gsl_integration_workspace* (opt.)
+        An existing GSL workspace memory handler for the integration, or nullptr
+        to create a new one.
+
+    Returns
+    -------
+    fill_fraction : double
+        The fraction of filled traps.
+*/
+struct TrICCo_ff_from_te_params {
+    double time_elapsed;
+    double mu;
+    double sigma;
+};
+
+double TrICCo_ff_from_te_integrand(double tau, void* params) {
+    struct TrICCo_ff_from_te_params* p = (struct TrICCo_ff_from_te_params*)params;
+
+    // Distribution density
+    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (tau * p->sigma * sqrt(2.0 * M_PI));
+
+    // To integrate: n(tau) * fill_frac(tau) dtau
+    return n * exp(-p->time_elapsed / tau);
+}
+
+double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
+    double time_elapsed, gsl_integration_workspace* workspace) {
+    // Completely full or empty, or unset watermark
+    if (time_elapsed == 0.0)
+        return 1.0;
+    else if (time_elapsed >= std::numeric_limits<double>::max())
+        return 0.0;
+    else if (time_elapsed == -1.0)
+        return 0.0;
+
+    // Prep the integration
+    double result, error;
+    const double min = 0.0;
+    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double epsabs = 0.0;
+    const double epsrel = 1e-6;
+    const int limit = 100;
+    const int key = GSL_INTEG_GAUSS51;
+    if (!workspace) {
+        workspace = gsl_integration_workspace_alloc(limit);
+    }
+    struct TrICCo_ff_from_te_params params = {
+        time_elapsed, release_timescale, release_timescale_sigma};
+    gsl_function F;
+    F.function = &TrICCo_ff_from_te_integrand;
+    F.params = &params;
+
+    // Integrate F.function from min to max
+    int status = gsl_integration_qag(
+        &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
+
+    if (status) error("Integration failed, status %d", status);
+
+    return result;
+}
+
+/*
+    Calculate the amount of elapsed time from the fraction of filled traps.
+
+    Found by finding where fill_fraction_from_time_elapsed(time_elapsed) is
+    equal to the required fill_fraction, using a root finder:
+        f(t_e) - f' = 0
+
+    (www.gnu.org/software/gsl/doc/html/roots.html)
+
+    Parameters
+    ----------
+    fill_fraction : double
+        The fraction of filled traps.
+
+    time_max : double
+        The maximum possible time, used to initialise the root finder. e.g. the
+        cumulative dwell time over all transfers.
+
+    workspace : gsl_integration_workspace* (opt.)
+        An existing GSL workspace memory handler for the integration, or nullptr
+        to create a new one.
+
+    Returns
+    -------
+    time_elapsed : double
+        The total time elapsed since the traps were filled, in the same units
+        as the trap timescales.
+*/
+struct TrICCo_te_from_ff_params {
+    TrapInstantCaptureContinuum* trap;
+    double fill_fraction;
+    gsl_integration_workspace* workspace;
+};
+
+double TrICCo_te_from_ff_root_function(double time_elapsed, void* params) {
+    struct TrICCo_te_from_ff_params* p = (struct TrICCo_te_from_ff_params*)params;
+
+    // To find time such that: fill_fraction(time) - fill_fraction = 0
+    return p->trap->fill_fraction_from_time_elapsed(time_elapsed, p->workspace) -
+           p->fill_fraction;
+}
+
+double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction(
+    double fill_fraction, double time_max, gsl_integration_workspace* workspace) {
+    // Completely full or empty, or unset watermark
+    if (fill_fraction == 1.0)
+        return 0.0;
+    else if (fill_fraction == 0.0)
+        return std::numeric_limits<double>::max();
+    else if (fill_fraction == -1.0)
+        return 0.0;
+
+    // Prep for the integration
+    if (!workspace) {
+        const int limit = 100;
+        workspace = gsl_integration_workspace_alloc(limit);
+    }
+
+    // Prep the root finder
+    double root;
+    int status;
+    const int max_iter = 100;
+    const double epsabs = 0.0;
+    const double epsrel = 1e-6;
+    const gsl_root_fsolver_type* T;
+    gsl_root_fsolver* s;
+    T = gsl_root_fsolver_brent;
+    s = gsl_root_fsolver_alloc(T);
+    struct TrICCo_te_from_ff_params params = {this, fill_fraction, workspace};
+    gsl_function F;
+    F.function = &TrICCo_te_from_ff_root_function;
+    F.params = &params;
+
+    // Bounding values
+    double x_lo = 0.0;
+    double x_hi = time_max;
+
+    // Iterate the root finder
+    int iter = 0;
+    gsl_root_fsolver_set(s, &F, x_lo, x_hi);
+    do {
+        iter++;
+        status = gsl_root_fsolver_iterate(s);
+        root = gsl_root_fsolver_root(s);
+        x_lo = gsl_root_fsolver_x_lower(s);
+        x_hi = gsl_root_fsolver_x_upper(s);
+        status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
+    } while (status == GSL_CONTINUE && iter < max_iter);
+
+    return root;
+}
+
+/*
+    Prepare tables of fill fractions and elapsed times for interpolation.
+
+    Use logarithmically spaced (decreasing) times to calculate the corresponding
+    (monotonically increasing) table of fill fractions. So no need to actually
+    store the elapsed times.
+
+    Parameters
+    ----------
+    time_min : double
+    time_max : double
+        The minimum and maximum elapsed times to set the table limits, e.g. a
+        single dwell time and the cumulative dwell time over all transfers.
+
+    n_intp : int
+        The number of interpolation values in the arrays.
+
+    Sets
+    ----
+    fill_fraction_table : std::valarray<double>
+        The array of fill fractions.
+
+    fill_min : double
+    fill_max : double
+        The fill fractions corresponding to the maximum and minimum times.
+
+    d_log_time : double
+        The logarithmic interval between successive (decreasing) times.
+*/
+void TrapInstantCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
+    double time_min, double time_max, int n_intp) {
+
+    // Prep for the GSL integration
+    const int limit = 100;
+    gsl_integration_workspace* workspace = gsl_integration_workspace_alloc(limit);
+
+    // Set up the arrays and limits
+    fill_fraction_table = std::valarray<double>(0.0, n_intp);
+    this->n_intp = n_intp;
+    this->time_min = time_min;
+    this->time_max = time_max;
+    fill_min = fill_fraction_from_time_elapsed(time_max, workspace);
+    fill_max = fill_fraction_from_time_elapsed(time_min, workspace);
+    d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
+    double time_i;
+
+    // Tabulate the values corresponding to the equally log-spaced inputs
+    for (int i = 0; i < n_intp; i++) {
+        time_i = exp(log(time_max) - i * d_log_time);
+        fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
+    }
+}
+
+/*
+    Calculate the fraction of filled traps after an amount of elapsed time,
+    using previously tabulated values for interpolation.
+
+    Parameters
+    ----------
+    time_elapsed : double
+        The total time elapsed since the traps were filled, in the same units
+        as the trap timescales.
+
+    Returns
+    -------
+    fill_fraction : double
+        The fraction of filled traps.
+*/
+double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed_table(
+    double time_elapsed) {
+    // Completely full or empty, or unset watermark
+    if (time_elapsed == 0.0)
+        return 1.0;
+    else if (time_elapsed >= std::numeric_limits<double>::max())
+        return 0.0;
+    else if (time_elapsed == -1.0)
+        return 0.0;
+
+    // Get the index and interpolation factor
+    double intp = (log(time_max) - log(time_elapsed)) / d_log_time;
+    int idx = (int)std::floor(intp);
+    intp = intp - idx;
+
+    // Extrapolate if outside the table
+    if (idx < 0) {
+        intp += idx;
+        idx = 0;
+    } else if (idx >= n_intp - 1) {
+        intp += idx - (n_intp - 2);
+        idx = n_intp - 2;
+    }
+
+    // Interpolate
+    double fill =
+        (1.0 - intp) * fill_fraction_table[idx] + intp * fill_fraction_table[idx + 1];
+
+    return clamp(fill, 0.0, 1.0);
+}
+
+/*
+    Calculate the amount of elapsed time from the fraction of filled traps,
+    using previously tabulated values for interpolation.
+
+    Parameters
+    ----------
+    fill_fraction : double
+        The fraction of filled traps.
+
+    Returns
+    -------
+    time_elapsed : double
+        The total time elapsed since the traps were filled, in the same units
+        as the trap timescales.
+*/
+double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction_table(
+    double fill_fraction) {
+    // Completely full or empty, or unset watermark
+    if (fill_fraction == 1.0)
+        return 0.0;
+    else if (fill_fraction == 0.0)
+        return std::numeric_limits<double>::max();
+    else if (fill_fraction == -1.0)
+        return 0.0;
+
+    // Find the index by searching the table
+    int idx = std::upper_bound(
+                  std::begin(fill_fraction_table), std::end(fill_fraction_table),
+                  fill_fraction) -
+              std::begin(fill_fraction_table) - 1;
+
+    // Extrapolate if outside the table
+    if (idx < 0)
+        idx = 0;
+    else if (idx == n_intp - 1)
+        idx = n_intp - 2;
+
+    // Interpolation factor
+    double intp = (fill_fraction - fill_fraction_table[idx]) /
+                  (fill_fraction_table[idx + 1] - fill_fraction_table[idx]);
+
+    // Interpolate
+    return exp(log(time_max) - (idx + intp) * d_log_time);
+}
+
+// ========
+// TrapSlowCaptureContinuum::
+// ========
+/*
+    Class TrapSlowCaptureContinuum.
+
+    For traps with a non-instant capture time, and a continuum (log-normal
+    distribution) of release timescales.
+
+    i.e. A combination of the TrapSlowCapture and TrapInstantCaptureContinuum models.
+
+    Parameters
+    ----------
+    density : double
+        The density of the trap species in a pixel.
+
+    release_timescale : double
+        The median release timescale of the traps, in the same units as the time
+        spent in each pixel or phase.
+
+    release_timescale_sigma : double
+        The sigma of release lifetimes of the traps.
+
+    capture_timescale : double
+        The capture timescale of the trap.
+*/
+TrapSlowCaptureContinuum::TrapSlowCaptureContinuum(
+    double density, double release_timescale, double release_timescale_sigma,
+    double capture_timescale)
+    : TrapInstantCapture(density, release_timescale),
+      release_timescale_sigma(release_timescale_sigma),
+      capture_timescale(capture_timescale) {
+
+    if (capture_timescale != 0.0)
+        capture_rate = 1.0 / capture_timescale;
+    else
+        capture_rate = 0.0;
+}
+
+/*
+    Same as TrapInstantCaptureContinuum
+*/
+struct TrSCCo_ff_from_te_params {
+    double time_elapsed;
+    double mu;
+    double sigma;
+};
+
+double TrSCCo_ff_from_te_integrand(double tau, void* params) {
+    struct TrSCCo_ff_from_te_params* p = (struct TrSCCo_ff_from_te_params*)params;
+
+    // Distribution density
+    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (tau * p->sigma * sqrt(2.0 * M_PI));
+
+    // To integrate: n(tau) * fill_frac(tau) dtau
+    return n * exp(-p->time_elapsed / tau);
+}
+
+double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
+    double time_elapsed, gsl_integration_workspace* workspace) {
+    // Completely full or empty, or unset watermark
+    if (time_elapsed == 0.0)
+        return 1.0;
+    else if (time_elapsed >= std::numeric_limits<double>::max())
+        return 0.0;
+    else if (time_elapsed == -1.0)
+        return 0.0;
+
+    // Prep the integration
+    double result, error;
+    const double min = 0.0;
+    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double epsabs = 0.0;
+    const double epsrel = 1e-6;
+    const int limit = 100;
+    const int key = GSL_INTEG_GAUSS51;
+    if (!workspace) {
+        workspace = gsl_integration_workspace_alloc(limit);
+    }
+    struct TrSCCo_ff_from_te_params params = {
+        time_elapsed, release_timescale, release_timescale_sigma};
+    gsl_function F;
+    F.function = &TrSCCo_ff_from_te_integrand;
+    F.params = &params;
+
+    // Integrate F.function from min to max
+    int status = gsl_integration_qag(
+        &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
+
+    if (status) error("Integration failed, status %d", status);
+
+    return result;
+}
+
+/*
+    Same as TrapInstantCaptureContinuum
+*/
+struct TrSCCo_te_from_ff_params {
+    TrapSlowCaptureContinuum* trap;
+    double fill_fraction;
+    gsl_integration_workspace* workspace;
+};
+
+double TrSCCo_te_from_ff_root_function(double time_elapsed, void* params) {
+    struct TrSCCo_te_from_ff_params* p = (struct TrSCCo_te_from_ff_params*)params;
+
+    // To find time such that: fill_fraction(time) - fill_fraction = 0
+    return p->trap->fill_fraction_from_time_elapsed(time_elapsed, p->workspace) -
+           p->fill_fraction;
+}
+
+double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction(
+    double fill_fraction, double time_max, gsl_integration_workspace* workspace) {
+    // Completely full or empty, or unset watermark
+    if (fill_fraction == 1.0)
+        return 0.0;
+    else if (fill_fraction == 0.0)
+        return std::numeric_limits<double>::max();
+    else if (fill_fraction == -1.0)
+        return 0.0;
+
+    // Prep for the integration
+    if (!workspace) {
+        const int limit = 100;
+        workspace = gsl_integration_workspace_alloc(limit);
+    }
+
+    // Prep the root finder
+    double root;
+    int status;
+    const int max_iter = 100;
+    const double epsabs = 0.0;
+    const double epsrel = 1e-6;
+    const gsl_root_fsolver_type* T;
+    gsl_root_fsolver* s;
+    T = gsl_root_fsolver_brent;
+    s = gsl_root_fsolver_alloc(T);
+    struct TrSCCo_te_from_ff_params params = {this, fill_fraction, workspace};
+    gsl_function F;
+    F.function = &TrSCCo_te_from_ff_root_function;
+    F.params = &params;
+
+    // Bounding values
+    double x_lo = 0.0;
+    double x_hi = time_max;
+
+    // Iterate the root finder
+    int iter = 0;
+    gsl_root_fsolver_set(s, &F, x_lo, x_hi);
+    do {
+        iter++;
+        status = gsl_root_fsolver_iterate(s);
+        root = gsl_root_fsolver_root(s);
+        x_lo = gsl_root_fsolver_x_lower(s);
+        x_hi = gsl_root_fsolver_x_upper(s);
+        status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
+    } while (status == GSL_CONTINUE && iter < max_iter);
+
+    return root;
+}
+
+/*
+    Same as TrapInstantCaptureContinuum
+*/
+void TrapSlowCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
+    double time_min, double time_max, int n_intp) {
+
+    // Prep for the GSL integration
+    const int limit = 100;
+    gsl_integration_workspace* workspace = gsl_integration_workspace_alloc(limit);
+
+    // Set up the arrays and limits
+    fill_fraction_table = std::valarray<double>(0.0, n_intp);
+    this->n_intp = n_intp;
+    this->time_min = time_min;
+    this->time_max = time_max;
+    fill_min = fill_fraction_from_time_elapsed(time_max, workspace);
+    fill_max = fill_fraction_from_time_elapsed(time_min, workspace);
+    d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
+    double time_i;
+
+    // Tabulate the values corresponding to the equally log-spaced inputs
+    for (int i = 0; i < n_intp; i++) {
+        time_i = exp(log(time_max) - i * d_log_time);
+        fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
+    }
+}
+
+/*
+    Same as TrapInstantCaptureContinuum
+*/
+double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed_table(
+    double time_elapsed) {
+    // Completely full or empty, or unset watermark
+    if (time_elapsed == 0.0)
+        return 1.0;
+    else if (time_elapsed >= std::numeric_limits<double>::max())
+        return 0.0;
+    else if (time_elapsed == -1.0)
+        return 0.0;
+
+    // Get the index and interpolation factor
+    double intp = (log(time_max) - log(time_elapsed)) / d_log_time;
+    int idx = (int)std::floor(intp);
+    intp = intp - idx;
+
+    // Extrapolate if outside the table
+    if (idx < 0) {
+        intp += idx;
+        idx = 0;
+    } else if (idx >= n_intp - 1) {
+        intp += idx - (n_intp - 2);
+        idx = n_intp - 2;
+    }
+
+    // Interpolate
+    double fill =
+        (1.0 - intp) * fill_fraction_table[idx] + intp * fill_fraction_table[idx + 1];
+
+    return clamp(fill, 0.0, 1.0);
+}
+
+/*
+    Same as TrapInstantCaptureContinuum
+*/
+double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction_table(
+    double fill_fraction) {
+    // Completely full or empty, or unset watermark
+    if (fill_fraction == 1.0)
+        return 0.0;
+    else if (fill_fraction == 0.0)
+        return std::numeric_limits<double>::max();
+    else if (fill_fraction == -1.0)
+        return 0.0;
+
+    // Find the index by searching the table
+    int idx = std::upper_bound(
+                  std::begin(fill_fraction_table), std::end(fill_fraction_table),
+                  fill_fraction) -
+              std::begin(fill_fraction_table) - 1;
+
+    // Extrapolate if outside the table
+    if (idx < 0)
+        idx = 0;
+    else if (idx == n_intp - 1)
+        idx = n_intp - 2;
+
+    // Interpolation factor
+    double intp = (fill_fraction - fill_fraction_table[idx]) /
+                  (fill_fraction_table[idx + 1] - fill_fraction_table[idx]);
+
+    // Interpolate
+    return exp(log(time_max) - (idx + intp) * d_log_time);
+}
+
+/*
+    Calculate the fraction of filled traps after slow-capture (and release).
+
+    Found by integrating the trap density distribution multiplied by the final
+    fill fraction, which must be calculated accounting for the dependency of
+    both the initial fill fraction and the fill probabilities on the release
+    lifetime distribution:
+        f(tau) = f_0(tau) f_f(tau) + (1 - f_0(tau)) f_e(tau)
+        f = int_0^inf n(tau) f(tau) dtau
+
+    Integrating from 0 to infinity can fail for very small mu and/or sigma, so
+    instead integrate from 0 to (mu + 100 sigma) for a more reliable and very
+    close approximation.
+
+    (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
+
+    Parameters
+    ----------
+    time_elapsed : double
+        The approximate, effective time elapsed since the traps were filled, in
+        the same units as the trap timescales.
+
+    dwell_time : double
+        The time spent in this pixel or phase, in the same units as the trap
+        timescales.
+
+    workspace : gsl_integration_workspace* (opt.)
+        An existing GSL workspace memory handler for the integration, or nullptr
+        to create a new one.
+
+    Returns
+    -------
+    fill_fraction : double
+        The fraction of filled traps.
+*/
+struct TrSCCo_ff_after_sc_params {
+    double time_elapsed;
+    double mu;
+    double sigma;
+    double capture_rate;
+    double dwell_time;
+};
+
+double TrSCCo_ff_after_sc_integrand(double tau, void* params) {
+    struct TrSCCo_ff_after_sc_params* p = (struct TrSCCo_ff_after_sc_params*)params;
+
+    // Distribution density
+    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (tau * p->sigma * sqrt(2.0 * M_PI));
+
+    // Rates and fill probabilities
+    double release_rate = 1.0 / tau;
+    double total_rate = p->capture_rate + release_rate;
+    double exponential_factor = (1 - exp(-total_rate * p->dwell_time)) / total_rate;
+    double fill_probability_from_empty = p->capture_rate * exponential_factor;
+    double fill_probability_from_full = 1.0 - release_rate * exponential_factor;
+
+    // Initial fill fraction
+    double f_0;
+    if (p->time_elapsed == 0.0)
+        f_0 = 1.0;
+    else if (p->time_elapsed >= std::numeric_limits<double>::max())
+        f_0 = 0.0;
+    else
+        f_0 = exp(-p->time_elapsed * release_rate);
+
+    // To integrate: n(tau) * new_fill(tau) dtau
+    return n * (f_0 * fill_probability_from_full +
+                (1.0 - f_0) * fill_probability_from_empty);
+}
+
+double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
+    double time_elapsed, double dwell_time, gsl_integration_workspace* workspace) {
+    // Prep the integration
+    double result, error;
+    const double min = 0.0;
+    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double epsabs = 0.0;
+    const double epsrel = 1e-6;
+    const int limit = 100;
+    const int key = GSL_INTEG_GAUSS51;
+    if (!workspace) {
+        workspace = gsl_integration_workspace_alloc(limit);
+    }
+    struct TrSCCo_ff_after_sc_params params = {
+        time_elapsed, release_timescale, release_timescale_sigma, capture_rate,
+        dwell_time};
+    gsl_function F;
+    F.function = &TrSCCo_ff_after_sc_integrand;
+    F.params = &params;
+
+    // Integrate F.function from min to max
+    int status = gsl_integration_qag(
+        &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
+
+    if (status) error("Integration failed, status %d", status);
+
+    return result;
+}
+
+/*
+    Prepare tables of fill fractions and elapsed times for interpolation of
+    fill fractions after slow capture (and release).
+
+    Use logarithmically spaced (decreasing) times to calculate the corresponding
+    (monotonically increasing) table of fill fractions. So no need to actually
+    store the elapsed times.
+
+    Parameters
+    ----------
+    dwell_time : double
+        The time spent in this pixel or phase, in the same units as the trap
+        timescales.
+
+    time_min : double
+    time_max : double
+        The minimum and maximum elapsed times to set the table limits, e.g. a
+        single dwell time and the cumulative dwell time over all transfers.
+
+    n_intp : int
+        The number of interpolation values in the arrays.
+
+    Sets
+    ----
+    fill_fraction_capture_table : std::valarray<double>
+        The array of fill fractions.
+
+    fill_capture_long_time : double
+        The should-be-converged fill fraction from a very long elapsed time.
+*/
+void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
+    double dwell_time, double time_min, double time_max, int n_intp) {
+    // Prep for the GSL integration
+    const int limit = 100;
+    gsl_integration_workspace* workspace = gsl_integration_workspace_alloc(limit);
+
+    // Set up the arrays and limits
+    fill_fraction_capture_table = std::valarray<double>(0.0, n_intp);
+    this->n_intp = n_intp;
+    this->time_min = time_min;
+    this->time_max = time_max;
+    fill_capture_min =
+        fill_fraction_after_slow_capture(time_max, dwell_time, workspace);
+    fill_capture_max =
+        fill_fraction_after_slow_capture(time_min, dwell_time, workspace);
+    fill_capture_long_time =
+        fill_fraction_after_slow_capture(time_max * 100, dwell_time, workspace);
+    d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
+    double time_i;
+
+    // Tabulate the values corresponding to the equally log-spaced inputs
+    for (int i = 0; i < n_intp; i++) {
+        time_i = exp(log(time_max) - i * d_log_time);
+        fill_fraction_capture_table[i] =
+            fill_fraction_after_slow_capture(time_i, dwell_time, workspace);
+    }
+}
+
+/*
+    Calculate the fraction of filled traps after slow-capture (and release),
+    using previously tabulated values for interpolation.
+
+    Parameters
+    ----------
+    time_elapsed : double
+        The approximate, effective time elapsed since the traps were filled, in
+        the same units as the trap timescales.
+
+    Returns
+    -------
+    fill_fraction : double
+        The fraction of filled traps.
+*/
+double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture_table(
+    double time_elapsed) {
+    // Very long elapsed time, or unset watermark
+    if (time_elapsed >= std::numeric_limits<double>::max())
+        return fill_capture_long_time;
+    else if (time_elapsed == -1.0)
+        return 0.0;
+
+    // Get the index and interpolation factor
+    double intp = (log(time_max) - log(time_elapsed)) / d_log_time;
+    int idx = (int)std::floor(intp);
+    intp = intp - idx;
+
+    // Extrapolate if outside the table
+    if (idx < 0) {
+        intp += idx;
+        idx = 0;
+    } else if (idx >= n_intp - 1) {
+        intp += idx - (n_intp - 2);
+        idx = n_intp - 2;
+    }
+
+    // Interpolate
+    double fill = (1.0 - intp) * fill_fraction_capture_table[idx] +
+                  intp * fill_fraction_capture_table[idx + 1];
+
+    return clamp(fill, 0.0, 1.0);
+}
-- 
2.43.0


From 2eab4ca21d4300b0b0d9271cbb0b142b34d51be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 10/45] fix: slow capture into empty continuum traps starts
 from empty traps

---
 src/traps.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index 316e20d..97ed79b 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -929,7 +929,8 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
     fill_capture_max =
         fill_fraction_after_slow_capture(time_min, dwell_time, workspace);
     fill_capture_long_time =
-        fill_fraction_after_slow_capture(time_max * 100, dwell_time, workspace);
+        fill_fraction_after_slow_capture(
+            std::numeric_limits<double>::max(), dwell_time, workspace);
     d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
     double time_i;
 
-- 
2.43.0


From 34ba7d286a53d84c3866369f557cb94200138032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 11/45] fix: full traps within the cloud stay full if their
 capture is instant

---
 src/trap_managers.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index dababe0..60f14f7 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1144,8 +1144,12 @@ void TrapManagerSlowCapture::set_fill_probabilities() {
                 traps[i_trap].capture_rate * exponential_factor;
 
         // Resulting fill fraction for filled traps (Eqn. 21)
-        fill_probabilities_from_full[i_trap] =
-            1.0 - traps[i_trap].release_rate * exponential_factor;
+        if (traps[i_trap].capture_rate == 0.0)
+            // Instant (re-)capture
+            fill_probabilities_from_full[i_trap] = 1.0;
+        else
+            fill_probabilities_from_full[i_trap] =
+                1.0 - traps[i_trap].release_rate * exponential_factor;
 
         // Resulting empty fraction from only release
         empty_probabilities_from_release[i_trap] =
-- 
2.43.0


From 1217e58d0825944a212a1fb1e92afce46c02c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 12/45] fix: slow-capture continuum traps with instant capture,
 or completely full

---
 src/traps.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index 97ed79b..7505305 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -833,6 +833,9 @@ double TrSCCo_ff_after_sc_integrand(double tau, void* params) {
     double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
                (tau * p->sigma * sqrt(2.0 * M_PI));
 
+    // Instant capture
+    if (p->capture_rate == 0.0) return n;
+
     // Rates and fill probabilities
     double release_rate = 1.0 / tau;
     double total_rate = p->capture_rate + release_rate;
@@ -959,8 +962,10 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
 */
 double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture_table(
     double time_elapsed) {
-    // Very long elapsed time, or unset watermark
-    if (time_elapsed >= std::numeric_limits<double>::max())
+    // Completely full, very long elapsed time, or unset watermark
+    if (time_elapsed == 0.0)
+        return fill_capture_max;
+    else if (time_elapsed >= std::numeric_limits<double>::max())
         return fill_capture_long_time;
     else if (time_elapsed == -1.0)
         return 0.0;
-- 
2.43.0


From b2a8a76e9bd417ac7f60f9e120ead8a003e5bb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 13/45] fix: continuum trap species with zero density have no
 effect

---
 src/trap_managers.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 60f14f7..7ba45de 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1541,6 +1541,7 @@ double TrapManagerInstantCaptureContinuum::n_electrons_released_from_wmk_above_c
     double fill_final;
     for (int i_trap = 0; i_trap < n_traps; i_trap++) {
         // Initial fill and conversion to elapsed time
+        if (trap_densities[i_trap] == 0.0) continue;
         fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
         time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
             fill_initial / trap_densities[i_trap]);
@@ -1576,6 +1577,7 @@ double TrapManagerInstantCaptureContinuum::n_electrons_released() {
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
             // Initial fill and conversion to elapsed time
+            if (trap_densities[i_trap] == 0.0) continue;
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
                 fill_initial / trap_densities[i_trap]);
@@ -1963,6 +1965,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_from_wmk_above_clou
     double fill_final;
     for (int i_trap = 0; i_trap < n_traps; i_trap++) {
         // Initial fill and conversion to elapsed time
+        if (trap_densities[i_trap] == 0.0) continue;
         fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
         time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
             fill_initial / trap_densities[i_trap]);
@@ -2071,6 +2074,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
             // Initial fill and conversion to elapsed time
+            if (trap_densities[i_trap] == 0.0) continue;
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
                 fill_initial / trap_densities[i_trap]);
@@ -2164,6 +2168,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
             // Initial fill and conversion to elapsed time
+            if (trap_densities[i_trap] == 0.0) continue;
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
                 fill_initial / trap_densities[i_trap]);
@@ -2207,6 +2212,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
             // Initial fill and conversion to elapsed time
+            if (trap_densities[i_trap] == 0.0) continue;
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
                 fill_initial / trap_densities[i_trap]);
-- 
2.43.0


From 00a6d1bb7b1226571e3ddd537f5ae021e80ce87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 14/45] fix: no division by zero when no traps can capture

---
 src/trap_managers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 7ba45de..704d4fd 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1010,7 +1010,8 @@ double TrapManagerInstantCapture::n_electrons_captured(double n_free_electrons)
     // Would be really nice to do this including the express multiplier.
     // That would also prevent image pixels from changing sign when zeroth_watermark<0.
     //
-    double enough = abs(n_free_electrons / n_captured);
+    double enough =
+        (n_captured == 0.0) ? 1.0 : abs(n_free_electrons / n_captured);
     //print_v(0,"enough %g %g %g\n", enough, n_free_electrons, n_captured);
 
     // Normal full capture
@@ -1857,7 +1858,7 @@ double TrapManagerInstantCaptureContinuum::n_electrons_captured(
     // Update the watermarks
     // ========
     // Check enough available electrons to capture
-    double enough = n_free_electrons / n_captured;
+    double enough = (n_captured == 0.0) ? 1.0 : n_free_electrons / n_captured;
 
     // Normal full capture
     if (enough >= 1.0) {
-- 
2.43.0


From 2ab18b886afc97dce42bb32dc4bf4cf575bc8ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 15/45] fix: verbose output without instant-capture traps

---
 src/cti.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 9408ff4..f93ab33 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -401,7 +401,8 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             2, "n_electrons_released_and_captured  %g \n",
                             n_electrons_released_and_captured);
 
-                        print_v(
+                        if (trap_manager_manager.n_traps_ic > 0)
+                            print_v(
                            2, "n_trapped_electrons_from_watermarks  %g \n",
                             trap_manager_manager.trap_managers_ic[i_phase].n_trapped_electrons_from_watermarks(trap_manager_manager.trap_managers_ic[i_phase].watermark_volumes,trap_manager_manager.trap_managers_ic[i_phase].watermark_fills));
 
-- 
2.43.0


From d3940939f08e32216d76a93d03b50ba4141d48fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 16/45] fix: multiphase clocking stays within the image at its
 edges

---
 src/cti.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index f93ab33..006dd6f 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -363,6 +363,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             row_read = row_index +
                                        roe_step_phase->capture_from_which_pixels[i];
 
+                            // No charge beyond the edge of the image
+                            if (row_read >= n_rows) continue;
+
                             n_free_electrons += image[row_read][column_index];
                         }
 
@@ -414,6 +417,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             row_write =
                                 row_index + roe_step_phase->release_to_which_pixels[i];
 
+                            // Charge released beyond the edge leaves the image
+                            if (row_write >= n_rows) continue;
+
                             image[row_write][column_index] +=
                                 n_electrons_released_and_captured * express_multiplier *
                                 roe_step_phase->release_fraction_to_pixels[i];
-- 
2.43.0


From 619e2609a16822df1999e5e4acdcf85c489afeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 17/45] fix: enough trap levels for prescan transfers and for
 trap pumping

---
 src/cti.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 006dd6f..53258a8 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -89,7 +89,7 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
     // Number of active rows and columns
     unsigned int n_active_rows = row_stop - row_start;
     unsigned int n_active_columns = column_stop - column_start;
-    unsigned int max_n_transfers = n_active_rows + row_offset;
+    unsigned int max_n_transfers = n_active_rows + row_offset + roe->prescan_offset;
     print_v(
         1, "%d column(s) [%d to %d], %d row(s) [%d to %d] \n", n_active_columns,
         column_start, column_stop, n_active_rows, row_start, row_stop);
@@ -109,6 +109,10 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
         error(
             "Number of CCD phases (%d) and ROE phases (%d) don't match.", ccd->n_phases,
             roe->n_phases);
+    if (roe->type == roe_type_trap_pumping) {
+        // Account for the repeated transfers of the same pixel
+        max_n_transfers *= roe->n_express_passes;
+    }
     if (!roe->empty_traps_between_columns) {
         // Account for the complete set of capture/release events that might
         // need to be tracked if the traps are never reset
-- 
2.43.0


From dc645d0d23b3acfbc7b0ca66ce71f0cdb6615771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 18/45] fix: size of the express matrix with separate first
 transfers

---
 src/roe.cpp | 1854 ++++++++++++++++++++++++++-------------------------
 1 file changed, 928 insertions(+), 926 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index b9cc7bd..7aac8c6 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -1,926 +1,928 @@
-
-#include "roe.hpp"
-
-#include <math.h>
-#include <stdio.h>
-
-#include <valarray>
-
-#include <iostream>
-#include "util.hpp"
-
-// ========
-// ROEStepPhase::
-// ========
-/*
-    Class ROEStepPhase.
-
-    Information about the readout electronics at one step in a clocking sequence
-    at one phase in the pixel. Used to determine the pixels and phases in
-    which electrons can be held, captured from, and released to, at this point
-    in the sequence.
-
-    Parameters
-    ----------
-    is_high : bool
-        Whether or not the potential is currently held "high", i.e. able to
-        contain free electrons.
-
-    capture_from_which_pixels : std::valarray<int>
-        The relative row number of the pixel to capture from.
-
-    release_to_which_pixels : std::valarray<int>
-        The relative row number of the pixel to release to.
-
-    release_fraction_to_pixels : std::valarray<double>
-        The fraction of the electrons to be released into this pixel.
-
-    Attributes
-    ----------
-    n_capture_pixels, n_release_pixels : int
-        The lengths of the *_which_pixels arrays.
-*/
-ROEStepPhase::ROEStepPhase(
-    bool is_high, std::valarray<int> capture_from_which_pixels,
-    std::valarray<int> release_to_which_pixels,
-    std::valarray<double> release_fraction_to_pixels)
-    : is_high(is_high),
-      capture_from_which_pixels(capture_from_which_pixels),
-      release_to_which_pixels(release_to_which_pixels),
-      release_fraction_to_pixels(release_fraction_to_pixels) {
-
-    n_capture_pixels = capture_from_which_pixels.size();
-    n_release_pixels = release_to_which_pixels.size();
-}
-
-// ========
-// ROE::
-// ========
-/*
-    Class ROE.
-
-    Information about the readout electronics.
-
-    For the standard mode, charge is read out from the pixels in which they
-    start to the readout register, so are transferred across a different number
-    of pixels depending on their initial distance from readout.
-
-    Each transfer from pixel to pixel may be a single step or decomposed into
-    multiple steps and multiple pixel phases, set by the clocking sequence.
-    Note that unlike the pixels, where pixel 0 is closest to readout and charge
-    moves from pixel p to p-1, for phases with a pixel, phase 0 is furthest from
-    readout and charge moves from phase i to i+1, as illustrated by the diagrams
-    for set_clock_sequence().
-
-    Parameters
-    ----------
-    dwell_times : std::valarray<double> (opt.)
-        The time between steps in the clocking sequence, in the same units
-        as the trap capture/release timescales. Default {1.0}.
-        
-    prescan_offset : int (opt.)
-        The number of pixels not present in the input array, through which
-        the charge had to pass in order to reach the readout amplifier.
-        Default [0]
-
-    overscan_start : int (opt.)
-        The number of pixels after which the input array that correspond to a 
-        virtual overscan, rather than physical pixels. Charge does not get  
-        trailed when it passes through these pixels (but it does through the   
-        rest of the CCD). This means that the input array can be larger than 
-        the CCD. Default [-1] means "no overscan".
-
-    empty_traps_between_columns : bool (opt.)
-        true:  Each column has independent traps (appropriate for parallel
-               clocking)
-        false: Each column moves through the same traps, which therefore
-               preserve occupancy, allowing trails to extend onto the next
-               column (appropriate for serial clocking, if all prescan and
-               overscan pixels are included in the image array). Default true.
-
-    empty_traps_for_first_transfers : bool (opt.)
-        If true, then tweak the express algorithm to treat every first 
-        pixel-to-pixel transfer separately to the rest. This is a bit slower,
-        but helps to conserve charge is the image size is small enough to be 
-        comparable to trail lengths.
-        Default false.
-
-        Physically, the first pixel that a charge cloud finds itself in will
-        start with empty traps, whereas every subsequent transfer sees traps
-        that may have been filled previously. With the default express
-        algorithm, this means the inherently different first-transfer would
-        be replicated many times for some pixels but not others. This
-        modification prevents that issue by modelling the first single
-        transfer for each pixel separately and then using the express
-        algorithm normally for the remainder, at the cost of modelling more
-        transfers.
-
-    force_release_away_from_readout : bool (opt.)
-        If true then force electrons to be released in a pixel not closer to
-        the readout. See set_clock_sequence() for more context. Default true.
-
-    use_integer_express_matrix : bool (opt.)
-        Old versions of this algorithm assumed (unnecessarily) that all
-        express multipliers must be integers. It can be slightly more efficient
-        if this requirement is dropped, but the option to force it is included
-        for backwards compatability. Default false.
-
-    Attributes
-    ----------
-    type : ROEType : enum int
-        The flag for the type of ROE. Used to tweak behaviour in CTI functions.
-
-    n_steps : int
-        The number of steps in the clocking sequence.
-
-    n_phases : int
-        The number of phases in each pixel. Defaults to n_steps, but may be
-        different for a non-standard type of clock sequence, e.g. trap pumping.
-*/
-ROE::ROE(
-    std::valarray<double>& dwell_times, 
-    int prescan_offset,
-    int overscan_start,
-    bool empty_traps_between_columns,
-    bool empty_traps_for_first_transfers, 
-    bool force_release_away_from_readout,
-    bool use_integer_express_matrix)
-    : dwell_times(dwell_times),
-      prescan_offset(prescan_offset),
-      overscan_start(overscan_start),
-      empty_traps_between_columns(empty_traps_between_columns),
-      empty_traps_for_first_transfers(empty_traps_for_first_transfers),
-      force_release_away_from_readout(force_release_away_from_readout),
-      use_integer_express_matrix(use_integer_express_matrix) {
-
-    type = roe_type_standard;
-    if ( prescan_offset < 0 ) throw std::invalid_argument( "prescan_offset must be zero or positive" );
-    if ( overscan_start != -1) {
-        if ( overscan_start <= 0 ) throw std::invalid_argument( "overscan_start must be positive" );
-    }
-    n_steps = dwell_times.size();
-    n_phases = n_steps;
-}
-
-/* Assignment operator. */
-ROE& ROE::operator=(const ROE& roe) {
-    dwell_times = roe.dwell_times;
-    prescan_offset = roe.prescan_offset;
-    overscan_start = roe.overscan_start;
-    empty_traps_between_columns = roe.empty_traps_between_columns;
-    empty_traps_for_first_transfers = roe.empty_traps_for_first_transfers;
-    force_release_away_from_readout = roe.force_release_away_from_readout;
-    use_integer_express_matrix = roe.use_integer_express_matrix;
-    type = roe.type;
-    n_steps = roe.n_steps;
-    n_phases = roe.n_phases;
-    return *this;
-}
-
-/*
-    Set the matrix of express multipliers.
-
-    To reduce runtime, instead of calculating the effects of every
-    pixel-to-pixel transfer, it is possible to approximate readout by
-    processing each transfer once (Anderson et al. 2010) or a few times
-    (Massey et al. 2014, section 2.1.5), then multiplying the effect of
-    that transfer by the number of transfers it represents. This function
-    computes the multiplicative factor, and returns it in a matrix that can
-    be easily looped over.
-
-    Parameters
-    ----------
-    n_rows : int
-        The number of rows in each column of the image. i.e. the number of
-        pixel-to-pixel transfers to move charge from the furthest pixel to the
-        readout register (if there is no offset).
-
-    express : int
-        The number of times the pixel-to-pixel transfers are computed for each
-        pixel, determining the balance between accuracy (high values) and speed
-        (low values).
-            n_rows      (slower, accurate) Compute every pixel-to-pixel
-                        transfer. The default 0 is an alias for n_rows.
-            k           Recompute on k occasions the effect of each transfer.
-                        After a few transfers (and e.g. eroded leading edges),
-                        the incremental effect of subsequent transfers can
-                        change.
-            1           (faster, approximate) Compute the effect of each
-                        transfer only once.
-
-    offset : int (opt.)
-        Consider all pixels to be offset by this number of pixels from the
-        readout register. Useful if working out the matrix for a postage
-        stamp image, or to account for prescan pixels whose data is not
-        stored. Default 0.
-
-    Sets
-    ----
-    express_matrix : std::valarray<double>
-        The express multiplier value for each pixel-to-pixel transfer, as a
-        2D-style 1D array.
-
-    n_express_passes : int
-        The number of express passes to run, i.e. the number of rows in the
-        matrices.
-*/
-void ROE::set_express_matrix_from_rows_and_express(
-    int n_rows, int express, int window_offset) {
-
-    // Set defaults
-    int offset = window_offset + prescan_offset;
-    int n_transfers = n_rows + offset; // transfers taken by farthest included pixel 
-    int overscan_in_image = 0; // number of pixels in the supplied image that are overscan
-    if (overscan_start >= 0)
-        overscan_in_image = std::max(n_rows + window_offset + 1 - overscan_start, 0);
-    if (express == 0)
-        express = n_transfers; // default express to all transfers, and check no larger
-    else
-        express = std::min(express, n_transfers);
-
-    /*print_v(
-        0,"offset: %d %d %d, n_transfers: %d, overscan: %d %d \n", 
-        offset, window_offset, prescan_offset, n_transfers, overscan_in_image, overscan_start
-    );*/ 
-    
- 
-    // Set default express to all transfers, and check no larger
-
-    // Temporarily ignore the first pixel-to-pixel transfer, if it is to be
-    // handled differently than the rest
-    if ((empty_traps_for_first_transfers) && (express < n_rows)) n_transfers--;
-
-    // Initialise an array with enough pixels to contain the supposed image,
-    // including offset
-    std::valarray<double> tmp_express_matrix(0.0, express * n_transfers);
-
-    // Temporary array for manipulating slices
-    std::valarray<double> tmp_row(0.0, n_transfers);
-
-    // Populate every row in the matrix with a range from 1 to n_transfers
-    // (plus 1 because it starts at 1 not 0)
-    for (int express_index = 0; express_index < express; express_index++)
-        tmp_express_matrix[std::slice(express_index * n_transfers, n_transfers, 1)] =
-            arange(1, n_transfers + 1);   
-    
-    // Compute the multiplier factors
-    double max_multiplier = (double) n_transfers / express;
-    if (use_integer_express_matrix) max_multiplier = ceil(max_multiplier);
-    // Offset each row to account for the pixels that have already been read out
-    for (int express_index = 0; express_index < express; express_index++) {
-        tmp_row =
-            tmp_express_matrix[std::slice(express_index * n_transfers, n_transfers, 1)];
-        tmp_express_matrix[std::slice(express_index * n_transfers, n_transfers, 1)] =
-            tmp_row - express_index * max_multiplier;
-    }
-    // Truncate all values to between 0 and max_multiplier
-    tmp_express_matrix[tmp_express_matrix < 0.0] = 0.0;
-    tmp_express_matrix[tmp_express_matrix > max_multiplier] = max_multiplier;
-    
-    // Add an extra (first) transfer for every pixel, the effect of which
-    // will only ever be counted once, because it is physically different
-    // from the other transfers (it sees only empty traps)
-    if ((empty_traps_for_first_transfers) && (express >= n_transfers)) {
-        // Reverse order of operations, so that first transfer always sees empty traps
-        std::valarray<double> express_matrix_full = tmp_express_matrix;
-        for (int i = 0; i < express; i++) {
-            tmp_express_matrix[std::slice(
-                (express - i - 1) * n_transfers, n_transfers, 1)] =
-                express_matrix_full[std::slice(
-                i * n_transfers, n_transfers, 1)];
-        }
-        n_express_passes = express;
-        
-    } else if ((empty_traps_for_first_transfers) && (express < n_transfers)) {
-        // Create a new matrix for the full number of transfers
-        // (this will eventually overwrite tmp_express_matrix, but that is first used)
-        n_transfers++;
-        std::valarray<double> express_matrix_full(0.0, n_transfers * n_transfers);
-        int i_transfer;
-        for (int express_index = 0; express_index < n_transfers; express_index++) {
-            i_transfer = n_transfers - express_index - 1;
-            express_matrix_full[express_index * n_transfers + i_transfer] = 1;
-        }
-
-        // Insert the original transfers into the new matrix at appropriate places
-        int new_index;
-        for (int old_index = 0; old_index < express; old_index++) {
-            // Count the number of non-zero transfers in each original row
-            tmp_row = tmp_express_matrix[std::slice(
-                old_index * (n_transfers - 1), n_transfers - 1, 1)];
-            tmp_row[tmp_row > 0.0] = 1.0;
-            new_index = (int)tmp_row.sum();
-
-            // Insert the original transfers
-            // (Using slice here doesn't compile on mac for some odd reason...)
-            for (int i = 0; i < n_transfers - 1; i++)
-                express_matrix_full[new_index * n_transfers + 1 + i] +=
-                    tmp_express_matrix[old_index * (n_transfers - 1) + i];
-        }
-
-        tmp_express_matrix = express_matrix_full;
-        n_express_passes = n_transfers;
-    } else {
-        n_express_passes = express;
-    }
-    express_matrix = tmp_express_matrix;
-    
-    // Remove the offset (which is not represented in the image pixels)
-    // std::cout << offset ;
-    if (offset > 0) {
-        //print_array_2D(tmp_express_matrix, n_transfers);
-        std::valarray<double> express_matrix_trim(0.0, n_express_passes * n_rows);
-
-        // Copy the post-offset slices of each row
-        for (int express_index = 0; express_index < n_express_passes; express_index++) {
-            express_matrix_trim[std::slice(express_index * n_rows, n_rows, 1)] =
-                express_matrix[std::slice(
-                    express_index * n_transfers + offset, n_rows, 1)];
-        }
-        //print_array_2D(express_matrix_trim, n_rows);
-        express_matrix = express_matrix_trim;
-    }
-
-    // Truncate number of transfers in regions of the image that represent overscan
-    //print_array_2D(express_matrix, n_rows);  
-    //std::cout << "overscan " << overscan_start << " f " << overscan_in_image << "\n";
-    if (overscan_in_image > 0) {
-        int n_express_rows = express_matrix.size() / n_rows;
-        for (int i_row = 0; (i_row < overscan_in_image); i_row++) {
-            double to_remove = overscan_in_image - i_row;
-            double removed = 0;
-            int i_express = 0;
-            while (removed < to_remove) {
-                int index = (n_express_rows - i_express) * n_rows - i_row - 1;
-                if ( index < 0 ) throw std::invalid_argument( "Accessing pixel that does not exist" );
-                //std::cout << i_express << i_row << " " << to_remove << removed << " index " << index << "\n";
-                removed += express_matrix[index];
-                express_matrix[index] = fmax(removed - to_remove, 0);
-                i_express++;
-            }
-            
-        }
-    }
-    //print_array_2D(express_matrix, n_rows);
-}
-
-/*
-    Set the accompanying array to the express matrix of when to store the trap
-    occupancy states.
-
-    Allows the next express iteration to continue from an (approximately)
-    suitable configuration by restoring the saved states.
-
-    If the traps start empty (rather than restored), then the first capture in
-    each express loop is different from the rest: many electrons are lost. This
-    behaviour may be appropriate for the first pixel-to-pixel transfer of
-    each charge cloud, but not for subsequent transfers. It particularly
-    causes problems if the first transfer is used to represent many
-    transfers through the express mechanism, as the large loss of electrons
-    is multiplied up.
-
-    Sets
-    ----
-    store_trap_states_matrix : std::valarray<bool>
-        For each pixel-to-pixel transfer, set true to store the trap states, as
-        a 2D-style 1D array.
-*/
-void ROE::set_store_trap_states_matrix() {
-    store_trap_states_matrix = std::valarray<bool>(false, express_matrix.size());
-    int n_transfers = express_matrix.size() / n_express_passes;
-    int row_index;
-
-    // No need to store states if already using empty traps for first transfers
-    if (empty_traps_for_first_transfers) return;
-
-    // Store on the pixel before where the next express pass will begin, so
-    // that the trap states are appropriate for continuing in the next pass
-    for (int express_index = 0; express_index < n_express_passes - 1; express_index++) {
-        for (row_index = 0; row_index < n_transfers - 1; row_index++) {
-            if (express_matrix[(express_index + 1) * n_transfers + row_index + 1] > 0.0)
-                break;
-        }
-        store_trap_states_matrix[express_index * n_transfers + row_index] = true;
-    }
-}
-
-/*
-    Set the clock sequence 2D array of ROEStepPhase objects for each clocking
-    step and phase.
-
-    Sets
-    ----
-    clock_sequence : std::valarray<std::valarray<ROEStepPhase> >
-        The array of ROEStepPhase objects to describe the state of the readout
-        electronics in each phase of the pixel at each step in the clocking
-        sequence.
-
-    The first diagram below illustrates the steps in the standard sequence
-    (where the number of steps equals the number of phases) for three phases,
-    where a single phase each step has its potential held high to hold the
-    charge cloud. The cloud is shifted from phase 0 to phase N towards the
-    previous pixel and the readout register.
-
-    See ROETrapPumping::ROETrapPumping()'s docstring for the behaviour produced
-    by this function when the number of steps is double the number of phases,
-    to make an oscillating sequence for trap pumping.
-
-    The trap species in each phase of pixel p can capture electrons when that
-    phase's potential is high and a charge cloud is present. The "Capture from"
-    lines refer to the original pixel that the cloud was in. In this mode, this
-    is always the current pixel, but can be different for e.g. trap pumping.
-
-    When the traps release charge, it is assumed to move directly to the nearest
-    high potential, which may be in a different pixel. The "Release to" lines
-    show the pixel to which electrons released by that phase's traps will move.
-
-    Three phases
-    ============
-                #     Pixel p-1      #       Pixel p      #     Pixel p+1      #
-    Step         Phase2 Phase1 Phase0 Phase2 Phase1 Phase0 Phase2 Phase1 Phase0
-    0           +             +------+             +------+             +------+
-    Capture from|             |      |             |   p  |             |      |
-    Release to  |             |      |  p-1     p  |   p  |             |      |
-                +-------------+      +-------------+      +-------------+      +
-    1                  +------+             +------+             +------+
-    Capture from       |      |             |   p  |             |      |
-    Release to         |      |          p  |   p  |   p         |      |
-                -------+      +-------------+      +-------------+      +-------
-    2           +------+             +------+             +------+             +
-    Capture from|      |             |   p  |             |      |             |
-    Release to  |      |             |   p  |   p     p+1 |      |             |
-                +      +-------------+      +-------------+      +-------------+
-
-    Below are corresponding illustrations for one, two, and four phases. For an
-    even number of phases, one phase in each step will be equidistant from two
-    high potentials. So any released charge is assumed to split equally between
-    the two pixels, as indicated by the "Release to" lines.
-
-    One phase
-    =========
-                  Pixel p-1  Pixel p  Pixel p+1
-    Step            Phase0   Phase0   Phase0
-    0              +------+ +------+ +------+
-    Capture from   |      | |   p  | |      |
-    Release to     |      | |   p  | |      |
-                  -+      +-+      +-+      +-
-
-    Two phases
-    ==========
-                  #  Pixel p-1  #   Pixel p   #  Pixel p+1  #
-    Step           Phase1 Phase0 Phase1 Phase0 Phase1 Phase0
-    0             +      +------+      +------+      +------+
-    Capture from  |      |      |      |   p  |      |      |
-    Release to    |      |      | p-1&p|   p  |      |      |
-                  +------+      +------+      +------+      +
-    1             +------+      +------+      +------+      +
-    Capture from  |      |      |   p  |      |      |      |
-    Release to    |      |      |   p  | p&p+1|      |      |
-                  +      +------+      +------+      +------+
-
-    Four phases
-    ===========
-               Pixel p-1      #          Pixel p          #         Pixel p+1
-    Step         Phase1 Phase0 Phase3 Phase2 Phase1 Phase0 Phase3 Phase2 Phase1
-    0                  +------+                    +------+                    +
-    Capture from       |      |                    |   p  |                    |
-    Release to         |      |  p-1   p-1&p    p  |   p  |                    |
-                -------+      +--------------------+      +--------------------+
-    1           +------+                    +------+                    +------+
-    Capture from|      |                    |   p  |                    |      |
-    Release to  |      |        p-1&p    p  |   p  |   p                |      |
-                +      +--------------------+      +--------------------+      +
-    2           +                    +------+                    +------+
-    Capture from|                    |   p  |                    |      |
-    Release to  |                p   |   p  |   p    p&p+1       |      |
-                +--------------------+      +--------------------+      +-------
-    3                         +------+                    +------+
-    Capture from              |   p  |                    |      |
-    Release to                |   p  |   p    p&p+1  p+1  |      |
-                --------------+      +--------------------+      +--------------
-
-    ## Document force_release_away_from_readout = true
-*/
-void ROE::set_clock_sequence() {
-
-    bool is_high;
-    std::valarray<int> capture_from_which_pixels;
-    std::valarray<int> release_to_which_pixels;
-    std::valarray<int> zero_one = {0, 1};
-    std::valarray<double> release_fraction_to_pixels;
-    int i_step_loop;
-    int i_phase_high;
-    int i_phase_split_release;
-
-    clock_sequence.resize(n_steps);
-
-    // Set the ROEStepPhase objects for each step in the sequence
-    for (int i_step = 0; i_step < n_steps; i_step++) {
-        clock_sequence[i_step].resize(n_phases);
-
-        // Convert e.g. 0,1,2,3,4,5 to 0,1,2,3,2,1 used for trap pumping, has
-        // no effect with standard n_phases = n_steps
-        i_step_loop = abs((i_step + n_phases) % (2 * n_phases) - n_phases);
-
-        // Index of the high phase in this step
-        i_phase_high = i_step_loop % n_phases;
-
-        // Index of the phase (if any) in this step for which released charge
-        // will split and move into two pixels because the nearest high phases
-        // are equidistant in both directions
-        if (n_phases % 2 == 0)
-            i_phase_split_release = (i_phase_high + n_phases / 2) % n_phases;
-        else
-            i_phase_split_release = -1;
-
-        // Each phase in this step
-        for (int i_phase = 0; i_phase < n_phases; i_phase++) {
-            // Is this phase high?
-            if (i_phase == i_phase_high)
-                is_high = true;
-            else
-                is_high = false;
-
-            // The pixel to capture from, if any
-            if (is_high)
-                // Capture from this pixel's charge cloud unless the previous
-                // pixel's charge cloud has been shifted into this pixel
-                if (i_step_loop > n_phases - 1)
-                    capture_from_which_pixels = {1};
-                else
-                    capture_from_which_pixels = {0};
-            else
-                capture_from_which_pixels = {};
-
-            // The pixel(s) to release to
-            if (i_phase == i_phase_split_release) {
-                // Split the release between this and the pixel with the joint-
-                // nearest high phase
-                if (i_phase < i_phase_high)
-                    release_to_which_pixels = zero_one;
-                else
-                    release_to_which_pixels = zero_one - 1;
-                release_fraction_to_pixels = {0.5, 0.5};
-            } else {
-                // For high phases, release to same pixel as capture
-                if (is_high)
-                    release_to_which_pixels = capture_from_which_pixels;
-                else {
-                    // Release to the single pixel with the nearest high phase
-                    if (i_phase - i_phase_high < -n_phases / 2)
-                        release_to_which_pixels = {1};
-                    else if (i_phase - i_phase_high > n_phases / 2)
-                        release_to_which_pixels = {-1};
-                    else
-                        release_to_which_pixels = {0};
-                }
-                release_fraction_to_pixels = {1.0};
-            }
-            // Release from low phases to the previous pixel's charge cloud if
-            // it's been shifted into this pixel
-            if ((!is_high) && (i_step_loop > n_phases - 1))
-                release_to_which_pixels += 1;
-
-            // Replace capture/release operations that include a closer-to-
-            // readout pixel to instead act on the further-from-readout pixel
-            // (i.e. the same operation but on the next pixel in the loop)
-            //## should this instead just find and change {-1}s to {0}s?
-            if ((force_release_away_from_readout) && (i_phase > i_phase_high)) {
-                capture_from_which_pixels += 1;
-                release_to_which_pixels += 1;
-            }
-
-            // Set the info for this step and phase
-            clock_sequence[i_step][i_phase] = ROEStepPhase(
-                is_high, capture_from_which_pixels, release_to_which_pixels,
-                release_fraction_to_pixels);
-        }
-    }
-}
-
-// ========
-// ROEChargeInjection::
-// ========
-/*
-    Class ROEChargeInjection.
-
-    Modified ROE for charge injection modes.
-
-    Instead of charge starting in each pixel and moving different distances to
-    the readout register, for charge injection the electrons are directly
-    created at the far end of the CCD, then are all transferred the same number
-    of times through the full image of pixels to the readout register.
-
-    Parameters
-    ----------
-    Same as ROE, but empty_traps_for_first_transfers is automatically false,
-    since only the single leading pixel of the charge injection in each column
-    will see the untouched traps.
-*/
-ROEChargeInjection::ROEChargeInjection(
-    std::valarray<double>& dwell_times, 
-    int prescan_offset,
-    int overscan_start,
-    bool empty_traps_between_columns,
-    bool force_release_away_from_readout, 
-    bool use_integer_express_matrix)
-    : ROE(dwell_times, prescan_offset, overscan_start, empty_traps_between_columns, false,
-          force_release_away_from_readout, use_integer_express_matrix) {
-
-    type = roe_type_charge_injection;
-}
-
-/*
-    See ROE::set_express_matrix_from_rows_and_express().
-
-    For charge injection, all charges are clocked the same number of times
-    through all the pixels to the readout register.
-*/
-void ROEChargeInjection::set_express_matrix_from_rows_and_express(
-    int n_rows, int express, int window_offset) {
-    
-/*    
-    // Can almost do with (just) the following
-    if (overscan_start <= 0)
-        overscan_start = n_rows + window_offset + 1;
-    int overscan_start_temp = overscan_start;
-    prescan_offset += (overscan_start - 1); // Add all pixels into the "prescan"
-    overscan_start = 1; // Start overscan immediately after the prescan
-    ROE::set_express_matrix_from_rows_and_express(n_rows, express, window_offset);
-    overscan_start = overscan_start_temp;
-    prescan_offset -= (overscan_start - 1); 
-*/    
-
-    // Set defaults
-    //int offset = window_offset + prescan_offset;
-    int n_transfers = prescan_offset + window_offset + n_rows; // transfers taken by farthest included pixel 
-    if (overscan_start >= 0) n_transfers = prescan_offset + overscan_start - 1;
-    if (express == 0)
-        express = n_transfers; // default express to all transfers, and check no larger
-    else
-        express = std::min(express, n_transfers);
-    n_express_passes = express;
-
-    // Compute the multiplier factors
-    double max_multiplier = (double)n_transfers / express;
-    if (use_integer_express_matrix) max_multiplier = ceil(max_multiplier);
-
-    // Initialise an array that will become the express matrix (can't create the array itself)
-    std::valarray<double> tmp_express_matrix(max_multiplier, express * n_rows);
-
-    // Adjust integer multipliers to correct the total number of transfers
-    if ((use_integer_express_matrix) && (n_transfers % express != 0)) {
-        double current_n_transfers;
-        double reduced_multiplier;
-
-        for (int express_index = express - 1; express_index >= 0; express_index--) {
-            // Count the current number of transfers for this pixel
-            current_n_transfers = 0.0;
-            for (int i = 0; i <= express_index; i++) {
-                current_n_transfers += tmp_express_matrix[i * n_rows];
-            }
-
-            // Reduce the multipliers until no longer have too many transfers
-            if (current_n_transfers <= n_transfers) break;
-            reduced_multiplier =
-                std::max(0.0, max_multiplier + n_transfers - current_n_transfers);
-            tmp_express_matrix[std::slice(
-                express_index * n_rows, n_rows, 1)] = reduced_multiplier;
-        }
-    }
-    express_matrix = tmp_express_matrix;
-
-}
-
-/*
-    See ROE::set_store_trap_states_matrix().
-
-    For charge injection, the first charge cloud in each column will always
-    encounter empty traps in every new pixel. So no need to store trap states
-    between transfers.
-*/
-void ROEChargeInjection::set_store_trap_states_matrix() {
-    store_trap_states_matrix = std::valarray<bool>(false, express_matrix.size());
-}
-
-// ========
-// ROETrapPumping::
-// ========
-/*
-    Class ROETrapPumping.
-
-    Modified ROE for trap pumping (AKA pocket pumping) modes.
-
-    Instead of clocking the charge in all pixels towards the readout register,
-    trap pumping shifts the charge back and forth, to end up in the same place
-    they began. If one pixel (and phase) contains traps and its neighbours do
-    not, then a charge dipole can be created as charge is captured and released
-    asymmetrically in the active and adjacent pixel. This allows direct study of
-    the trap species in a CCD.
-
-    The number of phases is assumed to be half the number of steps in the clock
-    sequence, which must be even.
-
-    Currently, this algorithm assumes that only a single pixel is active and
-    contains traps.
-
-    Parameters
-    ----------
-    Same as ROE, but empty_traps_between_columns is automatically true, and
-    force_release_away_from_readout is automatically false.
-
-    n_pumps : int
-        The number of times the charge is pumped back and forth.
-
-    The diagram below illustrates the steps in the clocking sequence produced
-    by ROE::set_clock_sequence() in this mode, for three phases. The first three
-    steps are the same as the standard case. However, now there are three
-    additional steps in which the charge cloud is shifted one step further into
-    the next pixel, but then back to where it began in the original pixel,
-    instead of continuing on towards the readout register.
-
-    This means that, unlike in the standard case, the traps in this pixel can
-    capture charge that originated in a different pixel, as shown in step 3,
-    where the high phase in pixel p contains the charge cloud that started in
-    pixel p+1.
-
-    Three phases
-    ============
-                #     Pixel p-1      #       Pixel p      #     Pixel p+1      #
-    Step         Phase2 Phase1 Phase0 Phase2 Phase1 Phase0 Phase2 Phase1 Phase0
-    0           +             +------+             +------+             +------+
-    Capture from|             |      |             |   p  |             |      |
-    Release to  |             |      |  p-1     p  |   p  |             |      |
-                +-------------+      +-------------+      +-------------+      +
-    1                  +------+             +------+             +------+
-    Capture from       |      |             |   p  |             |      |
-    Release to         |      |          p  |   p  |   p         |      |
-                -------+      +-------------+      +-------------+      +-------
-    2           +------+             +------+             +------+             +
-    Capture from|      |             |   p  |             |      |             |
-    Release to  |      |             |   p  |   p     p+1 |      |             |
-                +      +-------------+      +-------------+      +-------------+
-    3           +             +------+             +------+             +------+
-    Capture from|             |      |             |  p+1 |             |      |
-    Release to  |             |      |   p     p+1 |  p+1 |             |      |
-                +-------------+      +-------------+      +-------------+      |
-    4           +------+             +------+             +------+             +
-    Capture from|      |             |   p  |             |      |             |
-    Release to  |      |             |   p  |   p     p+1 |      |             |
-                +      +-------------+      +-------------+      +-------------+
-    5                  +------+             +------+             +------+
-    Capture from       |      |             |   p  |             |      |
-    Release to         |      |          p  |   p  |   p         |      |
-                -------+      +-------------+      +-------------+      +-------
-
-    Below are corresponding illustrations for two and four phases. As in the
-    standard case, an even number of phases leads to released charge being split
-    in one phase each step between twp pixels.
-
-    Two phases
-    ==========
-                  #  Pixel p-1  #   Pixel p   #  Pixel p+1  #
-    Step           Phase1 Phase0 Phase1 Phase0 Phase1 Phase0
-    0             +      +------+      +------+      +------+
-    Capture from  |      |      |      |   p  |      |      |
-    Release to    |      |      | p-1&p|   p  |      |      |
-                  +------+      +------+      +------+      +
-    1             +------+      +------+      +------+      +
-    Capture from  |      |      |   p  |      |      |      |
-    Release to    |      |      |   p  | p&p+1|      |      |
-                  +      +------+      +------+      +------+
-    2             +      +------+      +------+      +------+
-    Capture from  |      |      |      |  p+1 |      |      |
-    Release to    |      |      | p&p+1|  p+1 |      |      |
-                  +------+      +------+      +------+      +
-    3             +------+      +------+      +------+      +
-    Capture from  |      |      |   p  |      |      |      |
-    Release to    |      |      |   p  | p&p+1|      |      |
-                  +      +------+      +------+      +------+
-
-    Four phases
-    ===========
-               Pixel p-1      #          Pixel p          #         Pixel p+1
-    Step         Phase1 Phase0 Phase3 Phase2 Phase1 Phase0 Phase3 Phase2 Phase1
-    0                  +------+                    +------+                    +
-    Capture from       |      |                    |   p  |                    |
-    Release to         |      |  p-1   p-1&p    p  |   p  |                    |
-                -------+      +--------------------+      +--------------------+
-    1           +------+                    +------+                    +------+
-    Capture from|      |                    |   p  |                    |      |
-    Release to  |      |        p-1&p    p  |   p  |   p                |      |
-                +      +--------------------+      +--------------------+      +
-    2           +                    +------+                    +------+
-    Capture from|                    |   p  |                    |      |
-    Release to  |                p   |   p  |   p    p&p+1       |      |
-                +--------------------+      +--------------------+      +-------
-    3                         +------+                    +------+
-    Capture from              |   p  |                    |      |
-    Release to                |   p  |   p    p&p+1  p+1  |      |
-                --------------+      +--------------------+      +--------------
-    4                  +------+                    +------+                    +
-    Capture from       |      |                    |  p+1 |                    |
-    Release to         |      |   p    p&p+1   p+1 |  p+1 |                    |
-                -------+      +--------------------+      +--------------------+
-    5                         +------+                    +------+
-    Capture from              |   p  |                    |      |
-    Release to                |   p  |   p    p&p+1  p+1  |      |
-                --------------+      +--------------------+      +--------------
-    6           +                    +------+                    +------+
-    Capture from|                    |   p  |                    |      |
-    Release to  |                p   |   p  |   p    p&p+1       |      |
-                +--------------------+      +--------------------+      +-------
-    7           +------+                    +------+                    +------+
-    Capture from|      |                    |   p  |                    |      |
-    Release to  |      |        p-1&p    p  |   p  |   p                |      |
-                +      +--------------------+      +--------------------+      +
-*/
-ROETrapPumping::ROETrapPumping(
-    std::valarray<double>& dwell_times, int n_pumps,
-    bool empty_traps_for_first_transfers, bool use_integer_express_matrix)
-    : ROE(dwell_times, 0, -1, true, empty_traps_for_first_transfers, false,
-          use_integer_express_matrix) {
-
-    type = roe_type_trap_pumping;
-    this->n_pumps = n_pumps;
-
-    if (n_steps % 2 != 0)
-        error("The number of steps for trap pumping (%d) must be even", n_steps);
-    n_phases = n_steps / 2;
-}
-
-/*
-    See ROE::set_express_matrix_from_rows_and_express().
-
-    For trap pumping, instead of charge being transferred from pixel to pixel
-    until readout, only the back-and-forth pumping clock sequence is repeated a
-    number of times for the active pixel(s) containing charge.
-
-    Currently, this algorithm assumes that only a single pixel is active and
-    contains traps. So, rather than the number of pixels and offset (which must
-    be 1 and 0) the number of express passes is controlled by the number of
-    pumps back and forth.
-
-    Conveniently, the required express multipliers are the same as the ones for
-    the pixel furthest from readout with standard clocking.
-*/
-void ROETrapPumping::set_express_matrix_from_rows_and_express(
-    int n_rows, int express, int window_offset) {
-
-    // Set default express to all transfers, and check no larger
-    if (express == 0)
-        express = n_pumps;
-    else
-        express = std::min(express, n_pumps);
-
-    // Start with the standard express matrix for n_transfers = n_pumps
-    ROE::set_express_matrix_from_rows_and_express(n_pumps, express, window_offset);
-
-    // Extract the relevant express multipliers of the final pixel
-    std::valarray<double> tmp_col(0.0, n_express_passes);
-    for (int express_index = 0; express_index < n_express_passes; express_index++) {
-        tmp_col[express_index] = express_matrix[n_pumps - 1 + express_index * n_pumps];
-    }
-
-    // Extract the non-zero elements if doing first transfers separately
-    if ((empty_traps_for_first_transfers) && (express < n_pumps)) {
-        std::valarray<double> tmp_col_2 = tmp_col[tmp_col != 0.0];
-
-        n_express_passes = express + 1;
-        tmp_col.resize(n_express_passes);
-        // Set the non-zero elements, which won't include the final entry for
-        // mismatched integer multipliers
-        if ((use_integer_express_matrix) && (n_pumps % express != 0)) {
-            // (Using slice here doesn't compile on mac for some odd reason...)
-            for (int i = 0; i < n_express_passes - 1; i++) tmp_col[i] = tmp_col_2[i];
-
-            // Put back the final zero
-            tmp_col[n_express_passes - 1] = 0.0;
-        } else
-            tmp_col = tmp_col_2;
-    }
-
-    express_matrix.resize(n_rows * n_express_passes);
-    // Set multipliers for all rows, even though only one row will be active and
-    // actually used
-    for (int row_index = 0; row_index < n_rows; row_index++) {
-        express_matrix[std::slice(row_index, n_express_passes, n_rows)] = tmp_col;
-    }
-}
-
-/*
-    See ROE::set_store_trap_states_matrix().
-
-    For trap pumping, trap states must be stored after every pump sequence of
-    the same trap, until the final pump.
-*/
-void ROETrapPumping::set_store_trap_states_matrix() {
-    // Store after each active pass
-    store_trap_states_matrix = std::valarray<bool>(false, express_matrix.size());
-    store_trap_states_matrix[express_matrix != 0.0] = true;
-
-    // Don't store the final pass
-    int n_rows = express_matrix.size() / n_express_passes;
-    store_trap_states_matrix[std::slice((n_express_passes - 1) * n_rows, n_rows, 1)] =
-        false;
-}
+
+#include "roe.hpp"
+
+#include <math.h>
+#include <stdio.h>
+
+#include <valarray>
+
+#include <iostream>
+#include "util.hpp"
+
+// ========
+// ROEStepPhase::
+// ========
+/*
+    Class ROEStepPhase.
+
+    Information about the readout electronics at one step in a clocking sequence
+    at one phase in the pixel. Used to determine the pixels and phases in
+    which electrons can be held, captured from, and released to, at this point
+    in the sequence.
+
+    Parameters
+    ----------
+    is_high : bool
+        Whether or not the potential is currently held "high", i.e. able to
+        contain free electrons.
+
+    capture_from_which_pixels : std::valarray<int>
+        The relative row number of the pixel to capture from.
+
+    release_to_which_pixels : std::valarray<int>
+        The relative row number of the pixel to release to.
+
+    release_fraction_to_pixels : std::valarray<double>
+        The fraction of the electrons to be released into this pixel.
+
+    Attributes
+    ----------
+    n_capture_pixels, n_release_pixels : int
+        The lengths of the *_which_pixels arrays.
+*/
+ROEStepPhase::ROEStepPhase(
+    bool is_high, std::valarray<int> capture_from_which_pixels,
+    std::valarray<int> release_to_which_pixels,
+    std::valarray<double> release_fraction_to_pixels)
+    : is_high(is_high),
+      capture_from_which_pixels(capture_from_which_pixels),
+      release_to_which_pixels(release_to_which_pixels),
+      release_fraction_to_pixels(release_fraction_to_pixels) {
+
+    n_capture_pixels = capture_from_which_pixels.size();
+    n_release_pixels = release_to_which_pixels.size();
+}
+
+// ========
+// ROE::
+// ========
+/*
+    Class ROE.
+
+    Information about the readout electronics.
+
+    For the standard mode, charge is read out from the pixels in which they
+    start to the readout register, so are transferred across a different number
+    of pixels depending on their initial distance from readout.
+
+    Each transfer from pixel to pixel may be a single step or decomposed into
+    multiple steps and multiple pixel phases, set by the clocking sequence.
+    Note that unlike the pixels, where pixel 0 is closest to readout and charge
+    moves from pixel p to p-1, for phases with a pixel, phase 0 is furthest from
+    readout and charge moves from phase i to i+1, as illustrated by the diagrams
+    for set_clock_sequence().
+
+    Parameters
+    ----------
+    dwell_times : std::valarray<double> (opt.)
+        The time between steps in the clocking sequence, in the same units
+        as the trap capture/release timescales. Default {1.0}.
+        
+    prescan_offset : int (opt.)
+        The number of pixels not present in the input array, through which
+        the charge had to pass in order to reach the readout amplifier.
+        Default [0]
+
+    overscan_start : int (opt.)
+        The number of pixels after which the input array that correspond to a 
+        virtual overscan, rather than physical pixels. Charge does not get  
+        trailed when it passes through these pixels (but it does through the   
+        rest of the CCD). This means that the input array can be larger than 
+        the CCD. Default [-1] means "no overscan".
+
+    empty_traps_between_columns : bool (opt.)
+        true:  Each column has independent traps (appropriate for parallel
+               clocking)
+        false: Each column moves through the same traps, which therefore
+               preserve occupancy, allowing trails to extend onto the next
+               column (appropriate for serial clocking, if all prescan and
+               overscan pixels are included in the image array). Default true.
+
+    empty_traps_for_first_transfers : bool (opt.)
+        If true, then tweak the express algorithm to treat every first 
+        pixel-to-pixel transfer separately to the rest. This is a bit slower,
+        but helps to conserve charge is the image size is small enough to be 
+        comparable to trail lengths.
+        Default false.
+
+        Physically, the first pixel that a charge cloud finds itself in will
+        start with empty traps, whereas every subsequent transfer sees traps
+        that may have been filled previously. With the default express
+        algorithm, this means the inherently different first-transfer would
+        be replicated many times for some pixels but not others. This
+        modification prevents that issue by modelling the first single
+        transfer for each pixel separately and then using the express
+        algorithm normally for the remainder, at the cost of modelling more
+        transfers.
+
+    force_release_away_from_readout : bool (opt.)
+        If true then force electrons to be released in a pixel not closer to
+        the readout. See set_clock_sequence() for more context. Default true.
+
+    use_integer_express_matrix : bool (opt.)
+        Old versions of this algorithm assumed (unnecessarily) that all
+        express multipliers must be integers. It can be slightly more efficient
+        if this requirement is dropped, but the option to force it is included
+        for backwards compatability. Default false.
+
+    Attributes
+    ----------
+    type : ROEType : enum int
+        The flag for the type of ROE. Used to tweak behaviour in CTI functions.
+
+    n_steps : int
+        The number of steps in the clocking sequence.
+
+    n_phases : int
+        The number of phases in each pixel. Defaults to n_steps, but may be
+        different for a non-standard type of clock sequence, e.g. trap pumping.
+*/
+ROE::ROE(
+    std::valarray<double>& dwell_times, 
+    int prescan_offset,
+    int overscan_start,
+    bool empty_traps_between_columns,
+    bool empty_traps_for_first_transfers, 
+    bool force_release_away_from_readout,
+    bool use_integer_express_matrix)
+    : dwell_times(dwell_times),
+      prescan_offset(prescan_offset),
+      overscan_start(overscan_start),
+      empty_traps_between_columns(empty_traps_between_columns),
+      empty_traps_for_first_transfers(empty_traps_for_first_transfers),
+      force_release_away_from_readout(force_release_away_from_readout),
+      use_integer_express_matrix(use_integer_express_matrix) {
+
+    type = roe_type_standard;
+    if ( prescan_offset < 0 ) throw std::invalid_argument( "prescan_offset must be zero or positive" );
+    if ( overscan_start != -1) {
+        if ( overscan_start <= 0 ) throw std::invalid_argument( "overscan_start must be positive" );
+    }
+    n_steps = dwell_times.size();
+    n_phases = n_steps;
+}
+
+/* Assignment operator. */
+ROE& ROE::operator=(const ROE& roe) {
+    dwell_times = roe.dwell_times;
+    prescan_offset = roe.prescan_offset;
+    overscan_start = roe.overscan_start;
+    empty_traps_between_columns = roe.empty_traps_between_columns;
+    empty_traps_for_first_transfers = roe.empty_traps_for_first_transfers;
+    force_release_away_from_readout = roe.force_release_away_from_readout;
+    use_integer_express_matrix = roe.use_integer_express_matrix;
+    type = roe.type;
+    n_steps = roe.n_steps;
+    n_phases = roe.n_phases;
+    return *this;
+}
+
+/*
+    Set the matrix of express multipliers.
+
+    To reduce runtime, instead of calculating the effects of every
+    pixel-to-pixel transfer, it is possible to approximate readout by
+    processing each transfer once (Anderson et al. 2010) or a few times
+    (Massey et al. 2014, section 2.1.5), then multiplying the effect of
+    that transfer by the number of transfers it represents. This function
+    computes the multiplicative factor, and returns it in a matrix that can
+    be easily looped over.
+
+    Parameters
+    ----------
+    n_rows : int
+        The number of rows in each column of the image. i.e. the number of
+        pixel-to-pixel transfers to move charge from the furthest pixel to the
+        readout register (if there is no offset).
+
+    express : int
+        The number of times the pixel-to-pixel transfers are computed for each
+        pixel, determining the balance between accuracy (high values) and speed
+        (low values).
+            n_rows      (slower, accurate) Compute every pixel-to-pixel
+                        transfer. The default 0 is an alias for n_rows.
+            k           Recompute on k occasions the effect of each transfer.
+                        After a few transfers (and e.g. eroded leading edges),
+                        the incremental effect of subsequent transfers can
+                        change.
+            1           (faster, approximate) Compute the effect of each
+                        transfer only once.
+
+    offset : int (opt.)
+        Consider all pixels to be offset by this number of pixels from the
+        readout register. Useful if working out the matrix for a postage
+        stamp image, or to account for prescan pixels whose data is not
+        stored. Default 0.
+
+    Sets
+    ----
+    express_matrix : std::valarray<double>
+        The express multiplier value for each pixel-to-pixel transfer, as a
+        2D-style 1D array.
+
+    n_express_passes : int
+        The number of express passes to run, i.e. the number of rows in the
+        matrices.
+*/
+void ROE::set_express_matrix_from_rows_and_express(
+    int n_rows, int express, int window_offset) {
+
+    // Set defaults
+    int offset = window_offset + prescan_offset;
+    int n_transfers = n_rows + offset; // transfers taken by farthest included pixel 
+    int overscan_in_image = 0; // number of pixels in the supplied image that are overscan
+    if (overscan_start >= 0)
+        overscan_in_image = std::max(n_rows + window_offset + 1 - overscan_start, 0);
+    if (express == 0)
+        express = n_transfers; // default express to all transfers, and check no larger
+    else
+        express = std::min(express, n_transfers);
+
+    /*print_v(
+        0,"offset: %d %d %d, n_transfers: %d, overscan: %d %d \n", 
+        offset, window_offset, prescan_offset, n_transfers, overscan_in_image, overscan_start
+    );*/ 
+    
+ 
+    // Set default express to all transfers, and check no larger
+
+    // Temporarily ignore the first pixel-to-pixel transfer, if it is to be
+    // handled differently than the rest
+    bool separate_first_transfers =
+        (empty_traps_for_first_transfers) && (express < n_transfers);
+    if (separate_first_transfers) n_transfers--;
+
+    // Initialise an array with enough pixels to contain the supposed image,
+    // including offset
+    std::valarray<double> tmp_express_matrix(0.0, express * n_transfers);
+
+    // Temporary array for manipulating slices
+    std::valarray<double> tmp_row(0.0, n_transfers);
+
+    // Populate every row in the matrix with a range from 1 to n_transfers
+    // (plus 1 because it starts at 1 not 0)
+    for (int express_index = 0; express_index < express; express_index++)
+        tmp_express_matrix[std::slice(express_index * n_transfers, n_transfers, 1)] =
+            arange(1, n_transfers + 1);   
+    
+    // Compute the multiplier factors
+    double max_multiplier = (double) n_transfers / express;
+    if (use_integer_express_matrix) max_multiplier = ceil(max_multiplier);
+    // Offset each row to account for the pixels that have already been read out
+    for (int express_index = 0; express_index < express; express_index++) {
+        tmp_row =
+            tmp_express_matrix[std::slice(express_index * n_transfers, n_transfers, 1)];
+        tmp_express_matrix[std::slice(express_index * n_transfers, n_transfers, 1)] =
+            tmp_row - express_index * max_multiplier;
+    }
+    // Truncate all values to between 0 and max_multiplier
+    tmp_express_matrix[tmp_express_matrix < 0.0] = 0.0;
+    tmp_express_matrix[tmp_express_matrix > max_multiplier] = max_multiplier;
+    
+    // Add an extra (first) transfer for every pixel, the effect of which
+    // will only ever be counted once, because it is physically different
+    // from the other transfers (it sees only empty traps)
+    if ((empty_traps_for_first_transfers) && !separate_first_transfers) {
+        // Reverse order of operations, so that first transfer always sees empty traps
+        std::valarray<double> express_matrix_full = tmp_express_matrix;
+        for (int i = 0; i < express; i++) {
+            tmp_express_matrix[std::slice(
+                (express - i - 1) * n_transfers, n_transfers, 1)] =
+                express_matrix_full[std::slice(
+                i * n_transfers, n_transfers, 1)];
+        }
+        n_express_passes = express;
+        
+    } else if (separate_first_transfers) {
+        // Create a new matrix for the full number of transfers
+        // (this will eventually overwrite tmp_express_matrix, but that is first used)
+        n_transfers++;
+        std::valarray<double> express_matrix_full(0.0, n_transfers * n_transfers);
+        int i_transfer;
+        for (int express_index = 0; express_index < n_transfers; express_index++) {
+            i_transfer = n_transfers - express_index - 1;
+            express_matrix_full[express_index * n_transfers + i_transfer] = 1;
+        }
+
+        // Insert the original transfers into the new matrix at appropriate places
+        int new_index;
+        for (int old_index = 0; old_index < express; old_index++) {
+            // Count the number of non-zero transfers in each original row
+            tmp_row = tmp_express_matrix[std::slice(
+                old_index * (n_transfers - 1), n_transfers - 1, 1)];
+            tmp_row[tmp_row > 0.0] = 1.0;
+            new_index = (int)tmp_row.sum();
+
+            // Insert the original transfers
+            // (Using slice here doesn't compile on mac for some odd reason...)
+            for (int i = 0; i < n_transfers - 1; i++)
+                express_matrix_full[new_index * n_transfers + 1 + i] +=
+                    tmp_express_matrix[old_index * (n_transfers - 1) + i];
+        }
+
+        tmp_express_matrix = express_matrix_full;
+        n_express_passes = n_transfers;
+    } else {
+        n_express_passes = express;
+    }
+    express_matrix = tmp_express_matrix;
+    
+    // Remove the offset (which is not represented in the image pixels)
+    // std::cout << offset ;
+    if (offset > 0) {
+        //print_array_2D(tmp_express_matrix, n_transfers);
+        std::valarray<double> express_matrix_trim(0.0, n_express_passes * n_rows);
+
+        // Copy the post-offset slices of each row
+        for (int express_index = 0; express_index < n_express_passes; express_index++) {
+            express_matrix_trim[std::slice(express_index * n_rows, n_rows, 1)] =
+                express_matrix[std::slice(
+                    express_index * n_transfers + offset, n_rows, 1)];
+        }
+        //print_array_2D(express_matrix_trim, n_rows);
+        express_matrix = express_matrix_trim;
+    }
+
+    // Truncate number of transfers in regions of the image that represent overscan
+    //print_array_2D(express_matrix, n_rows);  
+    //std::cout << "overscan " << overscan_start << " f " << overscan_in_image << "\n";
+    if (overscan_in_image > 0) {
+        int n_express_rows = express_matrix.size() / n_rows;
+        for (int i_row = 0; (i_row < overscan_in_image); i_row++) {
+            double to_remove = overscan_in_image - i_row;
+            double removed = 0;
+            int i_express = 0;
+            while (removed < to_remove) {
+                int index = (n_express_rows - i_express) * n_rows - i_row - 1;
+                if ( index < 0 ) throw std::invalid_argument( "Accessing pixel that does not exist" );
+                //std::cout << i_express << i_row << " " << to_remove << removed << " index " << index << "\n";
+                removed += express_matrix[index];
+                express_matrix[index] = fmax(removed - to_remove, 0);
+                i_express++;
+            }
+            
+        }
+    }
+    //print_array_2D(express_matrix, n_rows);
+}
+
+/*
+    Set the accompanying array to the express matrix of when to store the trap
+    occupancy states.
+
+    Allows the next express iteration to continue from an (approximately)
+    suitable configuration by restoring the saved states.
+
+    If the traps start empty (rather than restored), then the first capture in
+    each express loop is different from the rest: many electrons are lost. This
+    behaviour may be appropriate for the first pixel-to-pixel transfer of
+    each charge cloud, but not for subsequent transfers. It particularly
+    causes problems if the first transfer is used to represent many
+    transfers through the express mechanism, as the large loss of electrons
+    is multiplied up.
+
+    Sets
+    ----
+    store_trap_states_matrix : std::valarray<bool>
+        For each pixel-to-pixel transfer, set true to store the trap states, as
+        a 2D-style 1D array.
+*/
+void ROE::set_store_trap_states_matrix() {
+    store_trap_states_matrix = std::valarray<bool>(false, express_matrix.size());
+    int n_transfers = express_matrix.size() / n_express_passes;
+    int row_index;
+
+    // No need to store states if already using empty traps for first transfers
+    if (empty_traps_for_first_transfers) return;
+
+    // Store on the pixel before where the next express pass will begin, so
+    // that the trap states are appropriate for continuing in the next pass
+    for (int express_index = 0; express_index < n_express_passes - 1; express_index++) {
+        for (row_index = 0; row_index < n_transfers - 1; row_index++) {
+            if (express_matrix[(express_index + 1) * n_transfers + row_index + 1] > 0.0)
+                break;
+        }
+        store_trap_states_matrix[express_index * n_transfers + row_index] = true;
+    }
+}
+
+/*
+    Set the clock sequence 2D array of ROEStepPhase objects for each clocking
+    step and phase.
+
+    Sets
+    ----
+    clock_sequence : std::valarray<std::valarray<ROEStepPhase> >
+        The array of ROEStepPhase objects to describe the state of the readout
+        electronics in each phase of the pixel at each step in the clocking
+        sequence.
+
+    The first diagram below illustrates the steps in the standard sequence
+    (where the number of steps equals the number of phases) for three phases,
+    where a single phase each step has its potential held high to hold the
+    charge cloud. The cloud is shifted from phase 0 to phase N towards the
+    previous pixel and the readout register.
+
+    See ROETrapPumping::ROETrapPumping()'s docstring for the behaviour produced
+    by this function when the number of steps is double the number of phases,
+    to make an oscillating sequence for trap pumping.
+
+    The trap species in each phase of pixel p can capture electrons when that
+    phase's potential is high and a charge cloud is present. The "Capture from"
+    lines refer to the original pixel that the cloud was in. In this mode, this
+    is always the current pixel, but can be different for e.g. trap pumping.
+
+    When the traps release charge, it is assumed to move directly to the nearest
+    high potential, which may be in a different pixel. The "Release to" lines
+    show the pixel to which electrons released by that phase's traps will move.
+
+    Three phases
+    ============
+                #     Pixel p-1      #       Pixel p      #     Pixel p+1      #
+    Step         Phase2 Phase1 Phase0 Phase2 Phase1 Phase0 Phase2 Phase1 Phase0
+    0           +             +------+             +------+             +------+
+    Capture from|             |      |             |   p  |             |      |
+    Release to  |             |      |  p-1     p  |   p  |             |      |
+                +-------------+      +-------------+      +-------------+      +
+    1                  +------+             +------+             +------+
+    Capture from       |      |             |   p  |             |      |
+    Release to         |      |          p  |   p  |   p         |      |
+                -------+      +-------------+      +-------------+      +-------
+    2           +------+             +------+             +------+             +
+    Capture from|      |             |   p  |             |      |             |
+    Release to  |      |             |   p  |   p     p+1 |      |             |
+                +      +-------------+      +-------------+      +-------------+
+
+    Below are corresponding illustrations for one, two, and four phases. For an
+    even number of phases, one phase in each step will be equidistant from two
+    high potentials. So any released charge is assumed to split equally between
+    the two pixels, as indicated by the "Release to" lines.
+
+    One phase
+    =========
+                  Pixel p-1  Pixel p  Pixel p+1
+    Step            Phase0   Phase0   Phase0
+    0              +------+ +------+ +------+
+    Capture from   |      | |   p  | |      |
+    Release to     |      | |   p  | |      |
+                  -+      +-+      +-+      +-
+
+    Two phases
+    ==========
+                  #  Pixel p-1  #   Pixel p   #  Pixel p+1  #
+    Step           Phase1 Phase0 Phase1 Phase0 Phase1 Phase0
+    0             +      +------+      +------+      +------+
+    Capture from  |      |      |      |   p  |      |      |
+    Release to    |      |      | p-1&p|   p  |      |      |
+                  +------+      +------+      +------+      +
+    1             +------+      +------+      +------+      +
+    Capture from  |      |      |   p  |      |      |      |
+    Release to    |      |      |   p  | p&p+1|      |      |
+                  +      +------+      +------+      +------+
+
+    Four phases
+    ===========
+               Pixel p-1      #          Pixel p          #         Pixel p+1
+    Step         Phase1 Phase0 Phase3 Phase2 Phase1 Phase0 Phase3 Phase2 Phase1
+    0                  +------+                    +------+                    +
+    Capture from       |      |                    |   p  |                    |
+    Release to         |      |  p-1   p-1&p    p  |   p  |                    |
+                -------+      +--------------------+      +--------------------+
+    1           +------+                    +------+                    +------+
+    Capture from|      |                    |   p  |                    |      |
+    Release to  |      |        p-1&p    p  |   p  |   p                |      |
+                +      +--------------------+      +--------------------+      +
+    2           +                    +------+                    +------+
+    Capture from|                    |   p  |                    |      |
+    Release to  |                p   |   p  |   p    p&p+1       |      |
+                +--------------------+      +--------------------+      +-------
+    3                         +------+                    +------+
+    Capture from              |   p  |                    |      |
+    Release to                |   p  |   p    p&p+1  p+1  |      |
+                --------------+      +--------------------+      +--------------
+
+    ## Document force_release_away_from_readout = true
+*/
+void ROE::set_clock_sequence() {
+
+    bool is_high;
+    std::valarray<int> capture_from_which_pixels;
+    std::valarray<int> release_to_which_pixels;
+    std::valarray<int> zero_one = {0, 1};
+    std::valarray<double> release_fraction_to_pixels;
+    int i_step_loop;
+    int i_phase_high;
+    int i_phase_split_release;
+
+    clock_sequence.resize(n_steps);
+
+    // Set the ROEStepPhase objects for each step in the sequence
+    for (int i_step = 0; i_step < n_steps; i_step++) {
+        clock_sequence[i_step].resize(n_phases);
+
+        // Convert e.g. 0,1,2,3,4,5 to 0,1,2,3,2,1 used for trap pumping, has
+        // no effect with standard n_phases = n_steps
+        i_step_loop = abs((i_step + n_phases) % (2 * n_phases) - n_phases);
+
+        // Index of the high phase in this step
+        i_phase_high = i_step_loop % n_phases;
+
+        // Index of the phase (if any) in this step for which released charge
+        // will split and move into two pixels because the nearest high phases
+        // are equidistant in both directions
+        if (n_phases % 2 == 0)
+            i_phase_split_release = (i_phase_high + n_phases / 2) % n_phases;
+        else
+            i_phase_split_release = -1;
+
+        // Each phase in this step
+        for (int i_phase = 0; i_phase < n_phases; i_phase++) {
+            // Is this phase high?
+            if (i_phase == i_phase_high)
+                is_high = true;
+            else
+                is_high = false;
+
+            // The pixel to capture from, if any
+            if (is_high)
+                // Capture from this pixel's charge cloud unless the previous
+                // pixel's charge cloud has been shifted into this pixel
+                if (i_step_loop > n_phases - 1)
+                    capture_from_which_pixels = {1};
+                else
+                    capture_from_which_pixels = {0};
+            else
+                capture_from_which_pixels = {};
+
+            // The pixel(s) to release to
+            if (i_phase == i_phase_split_release) {
+                // Split the release between this and the pixel with the joint-
+                // nearest high phase
+                if (i_phase < i_phase_high)
+                    release_to_which_pixels = zero_one;
+                else
+                    release_to_which_pixels = zero_one - 1;
+                release_fraction_to_pixels = {0.5, 0.5};
+            } else {
+                // For high phases, release to same pixel as capture
+                if (is_high)
+                    release_to_which_pixels = capture_from_which_pixels;
+                else {
+                    // Release to the single pixel with the nearest high phase
+                    if (i_phase - i_phase_high < -n_phases / 2)
+                        release_to_which_pixels = {1};
+                    else if (i_phase - i_phase_high > n_phases / 2)
+                        release_to_which_pixels = {-1};
+                    else
+                        release_to_which_pixels = {0};
+                }
+                release_fraction_to_pixels = {1.0};
+            }
+            // Release from low phases to the previous pixel's charge cloud if
+            // it's been shifted into this pixel
+            if ((!is_high) && (i_step_loop > n_phases - 1))
+                release_to_which_pixels += 1;
+
+            // Replace capture/release operations that include a closer-to-
+            // readout pixel to instead act on the further-from-readout pixel
+            // (i.e. the same operation but on the next pixel in the loop)
+            //## should this instead just find and change {-1}s to {0}s?
+            if ((force_release_away_from_readout) && (i_phase > i_phase_high)) {
+                capture_from_which_pixels += 1;
+                release_to_which_pixels += 1;
+            }
+
+            // Set the info for this step and phase
+            clock_sequence[i_step][i_phase] = ROEStepPhase(
+                is_high, capture_from_which_pixels, release_to_which_pixels,
+                release_fraction_to_pixels);
+        }
+    }
+}
+
+// ========
+// ROEChargeInjection::
+// ========
+/*
+    Class ROEChargeInjection.
+
+    Modified ROE for charge injection modes.
+
+    Instead of charge starting in each pixel and moving different distances to
+    the readout register, for charge injection the electrons are directly
+    created at the far end of the CCD, then are all transferred the same number
+    of times through the full image of pixels to the readout register.
+
+    Parameters
+    ----------
+    Same as ROE, but empty_traps_for_first_transfers is automatically false,
+    since only the single leading pixel of the charge injection in each column
+    will see the untouched traps.
+*/
+ROEChargeInjection::ROEChargeInjection(
+    std::valarray<double>& dwell_times, 
+    int prescan_offset,
+    int overscan_start,
+    bool empty_traps_between_columns,
+    bool force_release_away_from_readout, 
+    bool use_integer_express_matrix)
+    : ROE(dwell_times, prescan_offset, overscan_start, empty_traps_between_columns, false,
+          force_release_away_from_readout, use_integer_express_matrix) {
+
+    type = roe_type_charge_injection;
+}
+
+/*
+    See ROE::set_express_matrix_from_rows_and_express().
+
+    For charge injection, all charges are clocked the same number of times
+    through all the pixels to the readout register.
+*/
+void ROEChargeInjection::set_express_matrix_from_rows_and_express(
+    int n_rows, int express, int window_offset) {
+    
+/*    
+    // Can almost do with (just) the following
+    if (overscan_start <= 0)
+        overscan_start = n_rows + window_offset + 1;
+    int overscan_start_temp = overscan_start;
+    prescan_offset += (overscan_start - 1); // Add all pixels into the "prescan"
+    overscan_start = 1; // Start overscan immediately after the prescan
+    ROE::set_express_matrix_from_rows_and_express(n_rows, express, window_offset);
+    overscan_start = overscan_start_temp;
+    prescan_offset -= (overscan_start - 1); 
+*/    
+
+    // Set defaults
+    //int offset = window_offset + prescan_offset;
+    int n_transfers = prescan_offset + window_offset + n_rows; // transfers taken by farthest included pixel 
+    if (overscan_start >= 0) n_transfers = prescan_offset + overscan_start - 1;
+    if (express == 0)
+        express = n_transfers; // default express to all transfers, and check no larger
+    else
+        express = std::min(express, n_transfers);
+    n_express_passes = express;
+
+    // Compute the multiplier factors
+    double max_multiplier = (double)n_transfers / express;
+    if (use_integer_express_matrix) max_multiplier = ceil(max_multiplier);
+
+    // Initialise an array that will become the express matrix (can't create the array itself)
+    std::valarray<double> tmp_express_matrix(max_multiplier, express * n_rows);
+
+    // Adjust integer multipliers to correct the total number of transfers
+    if ((use_integer_express_matrix) && (n_transfers % express != 0)) {
+        double current_n_transfers;
+        double reduced_multiplier;
+
+        for (int express_index = express - 1; express_index >= 0; express_index--) {
+            // Count the current number of transfers for this pixel
+            current_n_transfers = 0.0;
+            for (int i = 0; i <= express_index; i++) {
+                current_n_transfers += tmp_express_matrix[i * n_rows];
+            }
+
+            // Reduce the multipliers until no longer have too many transfers
+            if (current_n_transfers <= n_transfers) break;
+            reduced_multiplier =
+                std::max(0.0, max_multiplier + n_transfers - current_n_transfers);
+            tmp_express_matrix[std::slice(
+                express_index * n_rows, n_rows, 1)] = reduced_multiplier;
+        }
+    }
+    express_matrix = tmp_express_matrix;
+
+}
+
+/*
+    See ROE::set_store_trap_states_matrix().
+
+    For charge injection, the first charge cloud in each column will always
+    encounter empty traps in every new pixel. So no need to store trap states
+    between transfers.
+*/
+void ROEChargeInjection::set_store_trap_states_matrix() {
+    store_trap_states_matrix = std::valarray<bool>(false, express_matrix.size());
+}
+
+// ========
+// ROETrapPumping::
+// ========
+/*
+    Class ROETrapPumping.
+
+    Modified ROE for trap pumping (AKA pocket pumping) modes.
+
+    Instead of clocking the charge in all pixels towards the readout register,
+    trap pumping shifts the charge back and forth, to end up in the same place
+    they began. If one pixel (and phase) contains traps and its neighbours do
+    not, then a charge dipole can be created as charge is captured and released
+    asymmetrically in the active and adjacent pixel. This allows direct study of
+    the trap species in a CCD.
+
+    The number of phases is assumed to be half the number of steps in the clock
+    sequence, which must be even.
+
+    Currently, this algorithm assumes that only a single pixel is active and
+    contains traps.
+
+    Parameters
+    ----------
+    Same as ROE, but empty_traps_between_columns is automatically true, and
+    force_release_away_from_readout is automatically false.
+
+    n_pumps : int
+        The number of times the charge is pumped back and forth.
+
+    The diagram below illustrates the steps in the clocking sequence produced
+    by ROE::set_clock_sequence() in this mode, for three phases. The first three
+    steps are the same as the standard case. However, now there are three
+    additional steps in which the charge cloud is shifted one step further into
+    the next pixel, but then back to where it began in the original pixel,
+    instead of continuing on towards the readout register.
+
+    This means that, unlike in the standard case, the traps in this pixel can
+    capture charge that originated in a different pixel, as shown in step 3,
+    where the high phase in pixel p contains the charge cloud that started in
+    pixel p+1.
+
+    Three phases
+    ============
+                #     Pixel p-1      #       Pixel p      #     Pixel p+1      #
+    Step         Phase2 Phase1 Phase0 Phase2 Phase1 Phase0 Phase2 Phase1 Phase0
+    0           +             +------+             +------+             +------+
+    Capture from|             |      |             |   p  |             |      |
+    Release to  |             |      |  p-1     p  |   p  |             |      |
+                +-------------+      +-------------+      +-------------+      +
+    1                  +------+             +------+             +------+
+    Capture from       |      |             |   p  |             |      |
+    Release to         |      |          p  |   p  |   p         |      |
+                -------+      +-------------+      +-------------+      +-------
+    2           +------+             +------+             +------+             +
+    Capture from|      |             |   p  |             |      |             |
+    Release to  |      |             |   p  |   p     p+1 |      |             |
+                +      +-------------+      +-------------+      +-------------+
+    3           +             +------+             +------+             +------+
+    Capture from|             |      |             |  p+1 |             |      |
+    Release to  |             |      |   p     p+1 |  p+1 |             |      |
+                +-------------+      +-------------+      +-------------+      |
+    4           +------+             +------+             +------+             +
+    Capture from|      |             |   p  |             |      |             |
+    Release to  |      |             |   p  |   p     p+1 |      |             |
+                +      +-------------+      +-------------+      +-------------+
+    5                  +------+             +------+             +------+
+    Capture from       |      |             |   p  |             |      |
+    Release to         |      |          p  |   p  |   p         |      |
+                -------+      +-------------+      +-------------+      +-------
+
+    Below are corresponding illustrations for two and four phases. As in the
+    standard case, an even number of phases leads to released charge being split
+    in one phase each step between twp pixels.
+
+    Two phases
+    ==========
+                  #  Pixel p-1  #   Pixel p   #  Pixel p+1  #
+    Step           Phase1 Phase0 Phase1 Phase0 Phase1 Phase0
+    0             +      +------+      +------+      +------+
+    Capture from  |      |      |      |   p  |      |      |
+    Release to    |      |      | p-1&p|   p  |      |      |
+                  +------+      +------+      +------+      +
+    1             +------+      +------+      +------+      +
+    Capture from  |      |      |   p  |      |      |      |
+    Release to    |      |      |   p  | p&p+1|      |      |
+                  +      +------+      +------+      +------+
+    2             +      +------+      +------+      +------+
+    Capture from  |      |      |      |  p+1 |      |      |
+    Release to    |      |      | p&p+1|  p+1 |      |      |
+                  +------+      +------+      +------+      +
+    3             +------+      +------+      +------+      +
+    Capture from  |      |      |   p  |      |      |      |
+    Release to    |      |      |   p  | p&p+1|      |      |
+                  +      +------+      +------+      +------+
+
+    Four phases
+    ===========
+               Pixel p-1      #          Pixel p          #         Pixel p+1
+    Step         Phase1 Phase0 Phase3 Phase2 Phase1 Phase0 Phase3 Phase2 Phase1
+    0                  +------+                    +------+                    +
+    Capture from       |      |                    |   p  |                    |
+    Release to         |      |  p-1   p-1&p    p  |   p  |                    |
+                -------+      +--------------------+      +--------------------+
+    1           +------+                    +------+                    +------+
+    Capture from|      |                    |   p  |                    |      |
+    Release to  |      |        p-1&p    p  |   p  |   p                |      |
+                +      +--------------------+      +--------------------+      +
+    2           +                    +------+                    +------+
+    Capture from|                    |   p  |                    |      |
+    Release to  |                p   |   p  |   p    p&p+1       |      |
+                +--------------------+      +--------------------+      +-------
+    3                         +------+                    +------+
+    Capture from              |   p  |                    |      |
+    Release to                |   p  |   p    p&p+1  p+1  |      |
+                --------------+      +--------------------+      +--------------
+    4                  +------+                    +------+                    +
+    Capture from       |      |                    |  p+1 |                    |
+    Release to         |      |   p    p&p+1   p+1 |  p+1 |                    |
+                -------+      +--------------------+      +--------------------+
+    5                         +------+                    +------+
+    Capture from              |   p  |                    |      |
+    Release to                |   p  |   p    p&p+1  p+1  |      |
+                --------------+      +--------------------+      +--------------
+    6           +                    +------+                    +------+
+    Capture from|                    |   p  |                    |      |
+    Release to  |                p   |   p  |   p    p&p+1       |      |
+                +--------------------+      +--------------------+      +-------
+    7           +------+                    +------+                    +------+
+    Capture from|      |                    |   p  |                    |      |
+    Release to  |      |        p-1&p    p  |   p  |   p                |      |
+                +      +--------------------+      +--------------------+      +
+*/
+ROETrapPumping::ROETrapPumping(
+    std::valarray<double>& dwell_times, int n_pumps,
+    bool empty_traps_for_first_transfers, bool use_integer_express_matrix)
+    : ROE(dwell_times, 0, -1, true, empty_traps_for_first_transfers, false,
+          use_integer_express_matrix) {
+
+    type = roe_type_trap_pumping;
+    this->n_pumps = n_pumps;
+
+    if (n_steps % 2 != 0)
+        error("The number of steps for trap pumping (%d) must be even", n_steps);
+    n_phases = n_steps / 2;
+}
+
+/*
+    See ROE::set_express_matrix_from_rows_and_express().
+
+    For trap pumping, instead of charge being transferred from pixel to pixel
+    until readout, only the back-and-forth pumping clock sequence is repeated a
+    number of times for the active pixel(s) containing charge.
+
+    Currently, this algorithm assumes that only a single pixel is active and
+    contains traps. So, rather than the number of pixels and offset (which must
+    be 1 and 0) the number of express passes is controlled by the number of
+    pumps back and forth.
+
+    Conveniently, the required express multipliers are the same as the ones for
+    the pixel furthest from readout with standard clocking.
+*/
+void ROETrapPumping::set_express_matrix_from_rows_and_express(
+    int n_rows, int express, int window_offset) {
+
+    // Set default express to all transfers, and check no larger
+    if (express == 0)
+        express = n_pumps;
+    else
+        express = std::min(express, n_pumps);
+
+    // Start with the standard express matrix for n_transfers = n_pumps
+    ROE::set_express_matrix_from_rows_and_express(n_pumps, express, window_offset);
+
+    // Extract the relevant express multipliers of the final pixel
+    std::valarray<double> tmp_col(0.0, n_express_passes);
+    for (int express_index = 0; express_index < n_express_passes; express_index++) {
+        tmp_col[express_index] = express_matrix[n_pumps - 1 + express_index * n_pumps];
+    }
+
+    // Extract the non-zero elements if doing first transfers separately
+    if ((empty_traps_for_first_transfers) && (express < n_pumps)) {
+        std::valarray<double> tmp_col_2 = tmp_col[tmp_col != 0.0];
+
+        n_express_passes = express + 1;
+        tmp_col.resize(n_express_passes);
+        // Set the non-zero elements, which won't include the final entry for
+        // mismatched integer multipliers
+        if ((use_integer_express_matrix) && (n_pumps % express != 0)) {
+            // (Using slice here doesn't compile on mac for some odd reason...)
+            for (int i = 0; i < n_express_passes - 1; i++) tmp_col[i] = tmp_col_2[i];
+
+            // Put back the final zero
+            tmp_col[n_express_passes - 1] = 0.0;
+        } else
+            tmp_col = tmp_col_2;
+    }
+
+    express_matrix.resize(n_rows * n_express_passes);
+    // Set multipliers for all rows, even though only one row will be active and
+    // actually used
+    for (int row_index = 0; row_index < n_rows; row_index++) {
+        express_matrix[std::slice(row_index, n_express_passes, n_rows)] = tmp_col;
+    }
+}
+
+/*
+    See ROE::set_store_trap_states_matrix().
+
+    For trap pumping, trap states must be stored after every pump sequence of
+    the same trap, until the final pump.
+*/
+void ROETrapPumping::set_store_trap_states_matrix() {
+    // Store after each active pass
+    store_trap_states_matrix = std::valarray<bool>(false, express_matrix.size());
+    store_trap_states_matrix[express_matrix != 0.0] = true;
+
+    // Don't store the final pass
+    int n_rows = express_matrix.size() / n_express_passes;
+    store_trap_states_matrix[std::slice((n_express_passes - 1) * n_rows, n_rows, 1)] =
+        false;
+}
-- 
2.43.0


From d4784b2cac93e788d2ffc8a9aeed9acb2ec6c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 19/45] fix: express matrix of images wholly within the
 overscan

---
 src/roe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index 7aac8c6..b6d7286 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -348,11 +348,11 @@ void ROE::set_express_matrix_from_rows_and_express(
     //std::cout << "overscan " << overscan_start << " f " << overscan_in_image << "\n";
     if (overscan_in_image > 0) {
         int n_express_rows = express_matrix.size() / n_rows;
-        for (int i_row = 0; (i_row < overscan_in_image); i_row++) {
+        for (int i_row = 0; i_row < std::min(overscan_in_image, n_rows); i_row++) {
             double to_remove = overscan_in_image - i_row;
             double removed = 0;
             int i_express = 0;
-            while (removed < to_remove) {
+            while ((removed < to_remove) && (i_express < n_express_rows)) {
                 int index = (n_express_rows - i_express) * n_rows - i_row - 1;
                 if ( index < 0 ) throw std::invalid_argument( "Accessing pixel that does not exist" );
                 //std::cout << i_express << i_row << " " << to_remove << removed << " index " << index << "\n";
-- 
2.43.0


From e23163b59d364e8534bed00b53919ee1e8b58654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 20/45] fix: number of pump cycles with integer express
 multipliers

---
 src/roe.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index b6d7286..6ed4155 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -890,16 +890,10 @@ void ROETrapPumping::set_express_matrix_from_rows_and_express(
 
         n_express_passes = express + 1;
         tmp_col.resize(n_express_passes);
-        // Set the non-zero elements, which won't include the final entry for
-        // mismatched integer multipliers
-        if ((use_integer_express_matrix) && (n_pumps % express != 0)) {
-            // (Using slice here doesn't compile on mac for some odd reason...)
-            for (int i = 0; i < n_express_passes - 1; i++) tmp_col[i] = tmp_col_2[i];
-
-            // Put back the final zero
-            tmp_col[n_express_passes - 1] = 0.0;
-        } else
-            tmp_col = tmp_col_2;
+        // Set the non-zero elements, which won't fill the final entries for
+        // mismatched integer multipliers, leaving those zero
+        // (Using slice here doesn't compile on mac for some odd reason...)
+        for (size_t i = 0; i < tmp_col_2.size(); i++) tmp_col[i] = tmp_col_2[i];
     }
 
     express_matrix.resize(n_rows * n_express_passes);
-- 
2.43.0


From bae58d0c2662d8439b6398ada465ab64dfb3ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 21/45] fix: copying or assigning a readout description makes
 an independent one

---
 include/roe.hpp | 202 ++++++++++++++++++++++++------------------------
 src/roe.cpp     |   1 +
 2 files changed, 102 insertions(+), 101 deletions(-)

diff --git a/include/roe.hpp b/include/roe.hpp
index 3afc424..461b9e5 100644
--- a/include/roe.hpp
+++ b/include/roe.hpp
@@ -1,101 +1,101 @@
-
-#ifndef ARCTIC_ROE_HPP
-#define ARCTIC_ROE_HPP
-
-#include <valarray>
-
-enum ROEType {
-    roe_type_standard = 0,
-    roe_type_charge_injection = 1,
-    roe_type_trap_pumping = 2
-};
-
-static std::valarray<double> dwell_times_default = {1.0};
-static std::valarray<double> dwell_times_trap_pumping_default = {0.5, 0.5};
-
-class ROEStepPhase {
-   public:
-    ROEStepPhase(){};
-    ROEStepPhase(
-        bool is_high, std::valarray<int> capture_from_which_pixels,
-        std::valarray<int> release_to_which_pixels,
-        std::valarray<double> release_fraction_to_pixels);
-    ~ROEStepPhase(){};
-
-    bool is_high;
-    std::valarray<int> capture_from_which_pixels;
-    std::valarray<int> release_to_which_pixels;
-    std::valarray<double> release_fraction_to_pixels;
-
-    int n_capture_pixels;
-    int n_release_pixels;
-};
-
-class ROE {
-   public:
-    ROE(std::valarray<double>& dwell_times = dwell_times_default,
-        int prescan_offset = 0,
-        int overscan_start = -1,
-        bool empty_traps_between_columns = true,
-        bool empty_traps_for_first_transfers = false,
-        bool force_release_away_from_readout = true,
-        bool use_integer_express_matrix = false);
-    virtual ~ROE(){};
-
-    ROE& operator=(const ROE& roe);
-
-    std::valarray<double>& dwell_times;
-    int prescan_offset;
-    int overscan_start;
-    bool empty_traps_between_columns;
-    bool empty_traps_for_first_transfers;
-    bool force_release_away_from_readout;
-    bool use_integer_express_matrix;
-
-    std::valarray<double> express_matrix;
-    std::valarray<bool> store_trap_states_matrix;
-    std::valarray<std::valarray<ROEStepPhase> > clock_sequence;
-
-    ROEType type;
-    int n_steps;
-    int n_phases;
-    int n_express_passes;
-    int n_pumps;
-
-    virtual void set_express_matrix_from_rows_and_express(
-        int n_rows, int express = 0, int window_offset = 0);
-    virtual void set_store_trap_states_matrix();
-    virtual void set_clock_sequence();
-};
-
-class ROEChargeInjection : public ROE {
-   public:
-    ROEChargeInjection(
-        std::valarray<double>& dwell_times = dwell_times_default,
-        int prescan_offset = 0,
-        int overscan_start = -1,
-        bool empty_traps_between_columns = true,
-        bool force_release_away_from_readout = true,
-        bool use_integer_express_matrix = false);
-    virtual ~ROEChargeInjection(){};
-
-    void set_express_matrix_from_rows_and_express(
-        int n_rows, int express = 0, int window_offset = 0);
-    void set_store_trap_states_matrix();
-};
-
-class ROETrapPumping : public ROE {
-   public:
-    ROETrapPumping(
-        std::valarray<double>& dwell_times = dwell_times_trap_pumping_default,
-        int n_pumps = 1, 
-        bool empty_traps_for_first_transfers = true,
-        bool use_integer_express_matrix = false);
-    virtual ~ROETrapPumping(){};
-
-    void set_express_matrix_from_rows_and_express(
-        int n_rows, int express = 0, int window_offset = 0);
-    void set_store_trap_states_matrix();
-};
-
-#endif  // ARCTIC_ROE_HPP
+
+#ifndef ARCTIC_ROE_HPP
+#define ARCTIC_ROE_HPP
+
+#include <valarray>
+
+enum ROEType {
+    roe_type_standard = 0,
+    roe_type_charge_injection = 1,
+    roe_type_trap_pumping = 2
+};
+
+static std::valarray<double> dwell_times_default = {1.0};
+static std::valarray<double> dwell_times_trap_pumping_default = {0.5, 0.5};
+
+class ROEStepPhase {
+   public:
+    ROEStepPhase(){};
+    ROEStepPhase(
+        bool is_high, std::valarray<int> capture_from_which_pixels,
+        std::valarray<int> release_to_which_pixels,
+        std::valarray<double> release_fraction_to_pixels);
+    ~ROEStepPhase(){};
+
+    bool is_high;
+    std::valarray<int> capture_from_which_pixels;
+    std::valarray<int> release_to_which_pixels;
+    std::valarray<double> release_fraction_to_pixels;
+
+    int n_capture_pixels;
+    int n_release_pixels;
+};
+
+class ROE {
+   public:
+    ROE(std::valarray<double>& dwell_times = dwell_times_default,
+        int prescan_offset = 0,
+        int overscan_start = -1,
+        bool empty_traps_between_columns = true,
+        bool empty_traps_for_first_transfers = false,
+        bool force_release_away_from_readout = true,
+        bool use_integer_express_matrix = false);
+    virtual ~ROE(){};
+
+    ROE& operator=(const ROE& roe);
+
+    std::valarray<double> dwell_times;
+    int prescan_offset;
+    int overscan_start;
+    bool empty_traps_between_columns;
+    bool empty_traps_for_first_transfers;
+    bool force_release_away_from_readout;
+    bool use_integer_express_matrix;
+
+    std::valarray<double> express_matrix;
+    std::valarray<bool> store_trap_states_matrix;
+    std::valarray<std::valarray<ROEStepPhase> > clock_sequence;
+
+    ROEType type;
+    int n_steps;
+    int n_phases;
+    int n_express_passes;
+    int n_pumps;
+
+    virtual void set_express_matrix_from_rows_and_express(
+        int n_rows, int express = 0, int window_offset = 0);
+    virtual void set_store_trap_states_matrix();
+    virtual void set_clock_sequence();
+};
+
+class ROEChargeInjection : public ROE {
+   public:
+    ROEChargeInjection(
+        std::valarray<double>& dwell_times = dwell_times_default,
+        int prescan_offset = 0,
+        int overscan_start = -1,
+        bool empty_traps_between_columns = true,
+        bool force_release_away_from_readout = true,
+        bool use_integer_express_matrix = false);
+    virtual ~ROEChargeInjection(){};
+
+    void set_express_matrix_from_rows_and_express(
+        int n_rows, int express = 0, int window_offset = 0);
+    void set_store_trap_states_matrix();
+};
+
+class ROETrapPumping : public ROE {
+   public:
+    ROETrapPumping(
+        std::valarray<double>& dwell_times = dwell_times_trap_pumping_default,
+        int n_pumps = 1, 
+        bool empty_traps_for_first_transfers = true,
+        bool use_integer_express_matrix = false);
+    virtual ~ROETrapPumping(){};
+
+    void set_express_matrix_from_rows_and_express(
+        int n_rows, int express = 0, int window_offset = 0);
+    void set_store_trap_states_matrix();
+};
+
+#endif  // ARCTIC_ROE_HPP
diff --git a/src/roe.cpp b/src/roe.cpp
index 6ed4155..a96a865 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -174,6 +174,7 @@ ROE& ROE::operator=(const ROE& roe) {
     type = roe.type;
     n_steps = roe.n_steps;
     n_phases = roe.n_phases;
+    n_pumps = roe.n_pumps;
     return *this;
 }
 
-- 
2.43.0


From b8552c7941bb9cf5709bcdd3388d4ce96c5943be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 22/45] fix: pixel bounce together with trails

---
 python/arcticpy/cti.py | 1516 ++++++++++++++++++++--------------------
 1 file changed, 758 insertions(+), 758 deletions(-)

diff --git a/python/arcticpy/cti.py b/python/arcticpy/cti.py
index 92c0488..4242fc5 100644
--- a/python/arcticpy/cti.py
+++ b/python/arcticpy/cti.py
@@ -1,758 +1,758 @@
-import numpy as np
-from typing import List, Optional
-
-try:
-    from arcticpy import wrapper as w
-except ImportError:
-    import wrapper as w
-
-from arcticpy.ccd import CCDPhase, CCD
-from arcticpy.roe import ROE
-from arcticpy.traps import (
-    TrapInstantCapture,
-    TrapSlowCapture,
-    TrapInstantCaptureContinuum,
-    TrapSlowCaptureContinuum,
-)
-from arcticpy.pixel_bounce import PixelBounce, add_pixel_bounce
-from arcticpy.vv_test import VVTestBench
-from arcticpy.read_noise import ReadNoise
-
-
-class ndarray_plus(np.ndarray):
-    """
-    A class that looks and feels like a numpy.ndarry, but contains extra information.
-    The image (a 2D floating point array) will be returned as one of these, because
-    it can also include e.g. a Verification and Validation test that CTI correction
-    has reduced trailing, or an estimate of the covariance between adjacent pixels
-    that was induced by the correction.
-    """
-    def __new__(
-        cls, 
-        values: np.ndarray,
-        covariance: np.ndarray=None,
-        vv_test: bool=None,
-        *args,
-        **kwargs
-    ):
-        obj = values.view(cls)
-        if vv_test is None:
-            if hasattr(obj, "vv_test"):
-                vv_test = obj.vv_test
-            else: vv_test = VVTestBench()
-        obj.vv_test = vv_test
-        if covariance is None:
-            covariance = np.zeros((2,2,5,5))
-            #covariance[:,:,2,2]=1.
-        obj.covariance = covariance
-        return obj
-        
-    def __array_finalize__(self, obj):
-        if hasattr(obj, "covariance"):
-            self.covariance = obj.covariance
-    
-        if hasattr(obj, "vv_test"):
-            self.vv_test = obj.vv_test
-        else:
-            self.vv_test = None
-  
-def add_cti(
-    image,
-    header=None,
-    # Parallel
-    parallel_ccd=None,
-    parallel_roe=None,
-    parallel_traps=None,
-    parallel_express=0,
-    parallel_window_offset=0,
-    parallel_window_start=0,
-    parallel_window_stop=-1,
-    parallel_time_start=0,
-    parallel_time_stop=-1,
-    parallel_prune_n_electrons=1e-10,
-    parallel_prune_frequency=20,
-    # Serial
-    serial_ccd=None,
-    serial_roe=None,
-    serial_traps=None,
-    serial_express=0,
-    serial_window_offset=0,
-    serial_window_start=0,
-    serial_window_stop=-1,
-    serial_time_start=0,
-    serial_time_stop=-1,
-    serial_prune_n_electrons=1e-10,
-    serial_prune_frequency=20,
-    # Combined
-    allow_negative_pixels=1,
-    # Pixel bounce
-    pixel_bounce_list : Optional[List[PixelBounce]] = None,
-    # Output
-    vv_test=False,
-    verbosity=1,
-    iteration=0,
-):
-    """
-    Wrapper for arctic's add_cti() in src/cti.cpp, see its documentation.
-
-    Add CTI trails to an image by trapping, releasing, and moving electrons
-    along their independent columns, for parallel and/or serial clocking.
-
-    This wrapper extracts individual numbers and arrays from the user-input
-    objects to pass to the C++ via Cython. See cy_add_cti() in wrapper.pyx and
-    add_cti() in interface.cpp.
-
-    Parameters (where different to add_cti() in src/cti.cpp)
-    ----------
-    parallel_traps : [Trap]
-    serial_traps : [Trap]
-        The 1D arrays of all trap species objects, for parallel and serial
-        clocking. The core arctic's add_cti() requires the different types of
-        traps to be provided in separate arrays. Here, mutliple trap types can
-        be passed in a single array, which will be separated by the wrapper.
-
-    verbosity : int (opt.)
-        The verbosity parameter to control the amount of printed information:
-            0   No printing (except errors etc).
-            1   Standard.
-            2   Extra details. For some reason, this makes things go VERY slow.
-
-    vv_test : Bool
-        If True, run a "Verification & Validation" test by fitting exponential
-        curves to pixels in overscan regions (if available). The results can 
-        be accessed as image.vv_test.results[-1].parallel.best_fit_trap_density
-    
-    Inputs
-    ------
-    image : 2D numpy.ndarray of pixel values
-    
-    Outputs
-    -------
-    image : 
-        is not just a numpy.ndarray, but has additional properties vv_test and
-        covariance
-    """
-    # ========
-    # Extract inputs and/or set dummy variables to pass to the wrapper
-    # ========
-    # Parallel
-    if parallel_traps is not None:
-        (
-            parallel_trap_densities,
-            parallel_trap_release_timescales,
-            parallel_trap_third_params,
-            parallel_trap_fourth_params,
-            parallel_n_traps_ic,
-            parallel_n_traps_sc,
-            parallel_n_traps_ic_co,
-            parallel_n_traps_sc_co,
-        ) = _extract_trap_parameters(parallel_traps)
-    else:
-        # No parallel clocking, set dummy variables instead
-        (
-            parallel_roe,
-            parallel_ccd,
-            parallel_trap_densities,
-            parallel_trap_release_timescales,
-            parallel_trap_third_params,
-            parallel_trap_fourth_params,
-            parallel_n_traps_ic,
-            parallel_n_traps_sc,
-            parallel_n_traps_ic_co,
-            parallel_n_traps_sc_co,
-        ) = _set_dummy_parameters()
-    parallel_prune_n_es = np.array([parallel_prune_n_electrons], dtype=np.double)
-
-    # Serial
-    if serial_traps is not None:
-        (
-            serial_trap_densities,
-            serial_trap_release_timescales,
-            serial_trap_third_params,
-            serial_trap_fourth_params,
-            serial_n_traps_ic,
-            serial_n_traps_sc,
-            serial_n_traps_ic_co,
-            serial_n_traps_sc_co,
-        ) = _extract_trap_parameters(serial_traps)
-    else:
-        # No serial clocking, set dummy variables instead
-        (
-            serial_roe,
-            serial_ccd,
-            serial_trap_densities,
-            serial_trap_release_timescales,
-            serial_trap_third_params,
-            serial_trap_fourth_params,
-            serial_n_traps_ic,
-            serial_n_traps_sc,
-            serial_n_traps_ic_co,
-            serial_n_traps_sc_co,
-        ) = _set_dummy_parameters()
-    serial_prune_n_es = np.array([serial_prune_n_electrons], dtype=np.double)
-    
-    image = np.copy(image).astype(np.double)
-
-
-    # ========
-    # V&V test
-    # ========
-    # Measure level of trailing into overscan regions of input image
-    vv=VVTestBench(
-        parallel_roe=parallel_roe, 
-        parallel_ccd=parallel_ccd, 
-        parallel_traps=parallel_traps, 
-        serial_roe=serial_roe, 
-        serial_ccd=serial_ccd, 
-        serial_traps=serial_traps, 
-        sum_of_exponentials=True,
-        verbose=(verbosity >= 1)
-    )
-    if vv_test:
-        vv_test_before=vv.test(image)
-
-    # ========
-    # Add CTI
-    # ========
-    # Pass the extracted inputs to C++ via the cython wrapper
-    image_trailed = w.cy_add_cti(
-        image,
-        # ========
-        # Parallel
-        # ========
-        # ROE
-        parallel_roe.dwell_times,
-        parallel_roe.prescan_offset,
-        parallel_roe.overscan_start,
-        parallel_roe.empty_traps_between_columns,
-        parallel_roe.empty_traps_for_first_transfers,
-        parallel_roe.force_release_away_from_readout,
-        parallel_roe.use_integer_express_matrix,
-        parallel_roe.n_pumps,
-        parallel_roe.type,
-        # CCD
-        parallel_ccd.fraction_of_traps_per_phase,
-        parallel_ccd.full_well_depths,
-        parallel_ccd.well_notch_depths,
-        parallel_ccd.well_fill_powers,
-        parallel_ccd.first_electron_fills,
-        # Traps
-        parallel_trap_densities,
-        parallel_trap_release_timescales,
-        parallel_trap_third_params,
-        parallel_trap_fourth_params,
-        parallel_n_traps_ic,
-        parallel_n_traps_sc,
-        parallel_n_traps_ic_co,
-        parallel_n_traps_sc_co,
-        # Misc
-        parallel_express,
-        parallel_window_offset,
-        parallel_window_start,
-        parallel_window_stop,
-        parallel_time_start,
-        parallel_time_stop,
-        parallel_prune_n_es,
-        parallel_prune_frequency,
-        # ========
-        # Serial
-        # ========
-        # ROE
-        serial_roe.dwell_times,
-        serial_roe.prescan_offset,
-        serial_roe.overscan_start,
-        serial_roe.empty_traps_between_columns,
-        serial_roe.empty_traps_for_first_transfers,
-        serial_roe.force_release_away_from_readout,
-        serial_roe.use_integer_express_matrix,
-        serial_roe.n_pumps,
-        serial_roe.type,
-        # CCD
-        serial_ccd.fraction_of_traps_per_phase,
-        serial_ccd.full_well_depths,
-        serial_ccd.well_notch_depths,
-        serial_ccd.well_fill_powers,
-        serial_ccd.first_electron_fills,
-        # Traps
-        serial_trap_densities,
-        serial_trap_release_timescales,
-        serial_trap_third_params,
-        serial_trap_fourth_params,
-        serial_n_traps_ic,
-        serial_n_traps_sc,
-        serial_n_traps_ic_co,
-        serial_n_traps_sc_co,
-        # Misc
-        serial_express,
-        serial_window_offset,
-        serial_window_start,
-        serial_window_stop,
-        serial_time_start,
-        serial_time_stop,
-        serial_prune_n_es,
-        serial_prune_frequency,
-        # ========
-        # Combined
-        # ========
-        allow_negative_pixels,
-        # ========
-        # Output
-        # ========
-        verbosity,
-        iteration,
-    )
-
-    # ================
-    # Add pixel bounce
-    # ================
-    if pixel_bounce_list is not None:
-
-        bias_total = np.zeros(image.shape)
-        
-        for pixel_bounce in pixel_bounce_list:
-            bias = pixel_bounce.bias_from(
-                image_trailed,
-                parallel_window_start=parallel_window_start,
-                parallel_window_stop=parallel_window_stop,
-                serial_window_start=serial_window_start,
-                serial_window_stop=serial_window_stop,
-                verbosity=verbosity,
-            )
-            bias_total += bias
-
-        image_trailed -= bias_total[:, :]
-
-    # ========
-    # V&V test
-    # ========
-    # Re-measure level of trailing into overscan regions of output image
-    if vv_test:
-        vv_test_after=vv.test(image_trailed,
-                              parallel_valid_columns = vv_test_before.parallel.valid_columns,
-                              parallel_pixels_pre_cti = vv_test_before.parallel.pixels_pre_cti,
-                              parallel_fit_bias = True, 
-                              parallel_model_bias = vv_test_before.parallel.best_fit_bias)
-
-    # ===================
-    # Update image header
-    # ===================
-    if header is not None:
-        header.set(
-            "cticor",
-            "ArCTIc",
-            "CTI addition performed using ArCTIc v" + w.cy_version_arctic(),
-        )
-        header.set(
-            "ctipar",
-            "ArCTIc",
-            "CTI addition performed using ArCTIc v" + w.cy_version_arctic(),
-        )
-
-    return ndarray_plus(image_trailed, vv_test = vv)
-
-
-def remove_cti(
-    image,
-    n_iterations,
-    header=None,
-    # Parallel
-    parallel_ccd=None,
-    parallel_roe=None,
-    parallel_traps=None,
-    parallel_express=0,
-    parallel_window_offset=0,
-    parallel_window_start=0,
-    parallel_window_stop=-1,
-    parallel_time_start=0,
-    parallel_time_stop=-1,
-    parallel_prune_n_electrons=1e-10,
-    parallel_prune_frequency=20,
-    # Serial
-    serial_ccd=None,
-    serial_roe=None,
-    serial_traps=None,
-    serial_express=0,
-    serial_window_offset=0,
-    serial_window_start=0,
-    serial_window_stop=-1,
-    serial_time_start=0,
-    serial_time_stop=-1,
-    serial_prune_n_electrons=1e-10,
-    serial_prune_frequency=20,
-    # Combined
-    allow_negative_pixels=1,
-    # Pixel bounce
-    pixel_bounce_list : Optional[List[PixelBounce]] = None,
-    # Optional: read noise de-amplification
-    remove_read_noise=False,
-    # Optional: perform Validation & Verification test
-    vv_test=False,
-    # Output
-    verbosity=1,
-):
-    """
-    Wrapper for arctic's remove_cti() in src/cti.cpp, see its documentation.
-
-    Remove CTI trails from an image by first modelling the addition of CTI, for
-    parallel and/or serial clocking, using the add_cti() wrapper.
-
-    Parameters (where different to remove_cti() in src/cti.cpp)
-    ----------
-    parallel_traps : [Trap]
-    serial_traps : [Trap]
-        The 1D arrays of all trap species objects, for parallel and serial
-        clocking. The core arctic's add_cti() requires the different types of
-        traps to be provided in separate arrays. Here, mutliple trap types can
-        be passed in a single array, which will be separated by the wrapper.
-
-    verbosity : int (opt.)
-        The verbosity parameter to control the amount of printed information:
-            0   No printing (except errors etc).
-            1   Standard.
-            2   Extra details. For some reason, this makes things go VERY slow.
-
-    vv_test : Bool
-        If True, run a "Verification & Validation" test by fitting exponential
-        curves to pixels in overscan regions (if available). The results can 
-        be accessed as image.vv_test.results[-1].parallel.best_fit_trap_density
-    
-    remove_read_noise : Bool
-        If True, estimate and remove the white readout noise in the image
-        before doing CTI correction, to prevent its being amplified. 
-        Add the noise back afterwards.
-        
-    Inputs
-    ------
-    image : 2D numpy.ndarray of pixel values
-    
-    Outputs
-    -------
-    image : 
-        is not just a numpy.ndarray, but has additional properties vv_test and
-        covariance
-    """
-    image = np.copy(image).astype(np.double)
-    image_remove_cti = np.copy(image).astype(np.double)
-
-    if verbosity >= 1:
-        w.cy_print_version()
-
-    # ========
-    # V&V test
-    # ========
-    # Measure level of trailing into overscan regions of input image
-    covariance = None
-    vv=VVTestBench(
-        parallel_roe=parallel_roe, 
-        parallel_ccd=parallel_ccd, 
-        parallel_traps=parallel_traps, 
-        serial_roe=serial_roe, 
-        serial_ccd=serial_ccd, 
-        serial_traps=serial_traps, 
-        sum_of_exponentials=True,
-        verbose=(verbosity >= 1)
-    )
-    if vv_test:
-       vv_test_before=vv.test(image)
-    
-    # =======================
-    # Attempt to estimate and remove read noise, so it it not amplified
-    # =======================
-    if remove_read_noise > 0:
-        sigma_readnoise = 1. * remove_read_noise
-        read_noise = ReadNoise(sigma_readnoise=sigma_readnoise)
-        print(read_noise.sigmaRN)
-        image_remove_cti,image_read_noise = read_noise.generate_SR_frames_from_image(image_remove_cti)
-        print("\nMean and rms of modelled read noise:",np.mean(image_read_noise),np.std(image_read_noise))        
-
-    # =======================
-    # Estimate the image with removed CTI more accurately each iteration
-    # =======================
-    for iteration in range(1, n_iterations + 1):
-        if verbosity >= 1:
-            print("Iter %d: " % iteration, end="", flush=True)
-
-        # Model the effect of adding CTI trails
-        image_add_cti = add_cti(
-            image=image_remove_cti,
-            header=header,
-            # Parallel
-            parallel_ccd=parallel_ccd,
-            parallel_roe=parallel_roe,
-            parallel_traps=parallel_traps,
-            parallel_express=parallel_express,
-            parallel_window_offset=parallel_window_offset,
-            parallel_window_start=parallel_window_start,
-            parallel_window_stop=parallel_window_stop,
-            parallel_time_start=parallel_time_start,
-            parallel_time_stop=parallel_time_stop,
-            parallel_prune_n_electrons=parallel_prune_n_electrons,
-            parallel_prune_frequency=parallel_prune_frequency,
-            # Serial
-            serial_ccd=serial_ccd,
-            serial_roe=serial_roe,
-            serial_traps=serial_traps,
-            serial_express=serial_express,
-            serial_window_offset=serial_window_offset,
-            serial_window_start=serial_window_start,
-            serial_window_stop=serial_window_stop,
-            serial_time_start=serial_time_start,
-            serial_time_stop=serial_time_stop,
-            serial_prune_n_electrons=serial_prune_n_electrons,
-            serial_prune_frequency=serial_prune_frequency,
-            # Combined
-            allow_negative_pixels=allow_negative_pixels,
-            # Pixel bounce
-            pixel_bounce_list=pixel_bounce_list,
-            # Output
-            verbosity=verbosity,
-            vv_test=False,
-            iteration=iteration
-        )
-
-        # Improve the estimate of the image with CTI trails removed
-        delta = image - image_add_cti
-        if remove_read_noise > 0:
-            delta -= image_read_noise
-            # Doing the following ought to be right, but turns out to bias the
-            # mean of the output image
-            #delta_squared = delta ** 2
-            #delta *= delta_squared / ( delta_squared + read_noise.sigmaRN ** 2 )
-        image_remove_cti += delta
-        
-        # Prevent unphysical, negative image values
-        # Hack to get long iteractions to converge faster
-        # Warning: this can introduce biases in e.g. dark exposures
-        if not allow_negative_pixels:
-            if iteration == 1:
-                image_remove_cti[image_remove_cti < 0.0] = 0.0
-            
-    # =======================
-    # Add back the read noise, if it had been removed
-    # =======================
-    if remove_read_noise > 0:
-        image_remove_cti += image_read_noise
-        #
-        # TO DO: Estimate residual covariance due to read noise
-        #        This will eventually be calculated via a call like
-        #
-        #        covariance = read_noise.measure_simulated_covariance_corners()
-        #
-        # But that's not yet finished. For now...
-        covariance = np.zeros((2,2,5,5))
-        covariance[:,:,2,2]=read_noise.sigmaRN
-           
-    # ========
-    # V&V test
-    # ========
-    # Re-measure level of trailing into overscan regions of output image
-    if vv_test:
-        vv_test_after=vv.test(image_remove_cti,
-                              parallel_valid_columns = vv_test_before.parallel.valid_columns,
-                              parallel_pixels_pre_cti = vv_test_before.parallel.pixels_pre_cti,
-                              parallel_fit_bias = True, 
-                              parallel_model_bias = vv_test_before.parallel.best_fit_bias)
-        
-    # ===================
-    # Update image header
-    # ===================
-    if header is not None:
-        header.set(
-            "cticor",
-            "ArCTIc",
-            "CTI correction performed using ArCTIc v" + w.cy_version_arctic(),
-        )
-        header.set(
-            "ctipar",
-            "ArCTIc",
-            "CTI correction performed using ArCTIc v" + w.cy_version_arctic(),
-        )
-        
-    return ndarray_plus(image_remove_cti, vv_test = vv, covariance = covariance)
-
-
-
-def CTI_model_for_HST_ACS(date):
-    """
-    Return arcticpy objects that provide a preset CTI model for the Hubble Space
-    Telescope (HST) Advanced Camera for Surveys (ACS).
-
-    The returned objects are ready to be passed to add_cti() or remove_cti(),
-    for parallel clocking.
-
-    See Massey et al. (2014). Updated model and references coming soon.
-
-    Parameters
-    ----------
-    date : float
-        The Julian date. Should not be before the ACS launch date.
-
-    Returns
-    -------
-    roe : ROE
-        The ROE object that describes the read-out electronics.
-
-    ccd : CCD
-        The CCD object that describes how electrons fill the volume.
-
-    traps : [Trap]
-        A list of trap objects that set the parameters for each trap species.
-    """
-    # Julian dates
-    date_acs_launch = 2452334.5  # ACS launched, SM3B, 01 March 2002
-    date_T_change = 2453920.0  # Temperature changed, 03 July 2006
-    date_sm4_repair = 2454968.0  # ACS repaired, SM4, 16 May 2009
-
-    assert date >= date_acs_launch, "Date must be after ACS launch (2002/03/01)"
-
-    # Trap species
-    relative_densities = np.array([0.17, 0.45, 0.38])
-    if date < date_T_change:
-        release_times = np.array([0.48, 4.86, 20.6])
-    else:
-        release_times = np.array([0.74, 7.70, 37.0])
-
-    # Density evolution
-    if date < date_sm4_repair:
-        initial_total_trap_density = 0.017845
-        trap_growth_rate = 3.5488e-4
-    else:
-        initial_total_trap_density = -0.246591 * 1.011
-        trap_growth_rate = 0.000558980 * 1.011
-    total_trap_density = initial_total_trap_density + trap_growth_rate * (
-        date - date_acs_launch
-    )
-    trap_densities = relative_densities * total_trap_density
-
-    # arctic objects
-    # There is CTI only in the parallel direction, so don't worry about e.g. serial prescan
-    parallel_roe = ROE(
-        dwell_times=[1.0],
-        empty_traps_between_columns=True,
-        empty_traps_for_first_transfers=False,
-        force_release_away_from_readout=True,
-        use_integer_express_matrix=False,
-        overscan_start=2048
-    )
-    serial_roe = ROE(
-        dwell_times=[1.0],
-        empty_traps_between_columns=True,
-        empty_traps_for_first_transfers=False,
-        force_release_away_from_readout=True,
-        use_integer_express_matrix=False,
-        prescan_length=24,
-        read_noise=4.0
-    )
-
-    # Single-phase CCD
-    parallel_ccd = CCD(full_well_depth=84700, well_notch_depth=0.0, well_fill_power=0.478)
-    serial_ccd = CCD(full_well_depth=84700, well_notch_depth=0.0, well_fill_power=0.478)
-
-    # Instant-capture traps
-    parallel_traps = [
-        TrapInstantCapture(
-            density=trap_densities[i], release_timescale=release_times[i]
-        )
-        for i in range(len(trap_densities))
-    ]
-    serial_traps = None
-
-    return parallel_roe, parallel_ccd, parallel_traps, serial_roe, serial_ccd, serial_traps
-
-################################################ INTERNAL FUNCTIONS
-
-def _extract_trap_parameters(traps):
-    """Extract trap parameters for add/remove_cti() to pass to the wrapper.
-
-    Returns the converted arguments in the formats and types required by the
-    cython wrapper's cy_add/remove_cti().
-    """
-    # Extract trap inputs
-    traps_ic = [trap for trap in traps if type(trap) == TrapInstantCapture]
-    traps_sc = [trap for trap in traps if type(trap) == TrapSlowCapture]
-    traps_ic_co = [trap for trap in traps if type(trap) == TrapInstantCaptureContinuum]
-    traps_sc_co = [trap for trap in traps if type(trap) == TrapSlowCaptureContinuum]
-    n_traps_ic = len(traps_ic)
-    n_traps_sc = len(traps_sc)
-    n_traps_ic_co = len(traps_ic_co)
-    n_traps_sc_co = len(traps_sc_co)
-    if n_traps_sc + n_traps_ic + n_traps_ic_co + n_traps_sc_co != len(traps):
-        raise Exception(
-            "Not all traps extracted successfully (%d instant capture, %d slow capture, %d continuum, %d slow_capture_continuum, %d total)"
-            % (n_traps_ic, n_traps_sc, n_traps_ic_co, n_traps_sc_co, len(traps))
-        )
-
-    # Make sure the order is correct
-    traps = traps_ic + traps_sc + traps_ic_co + traps_sc_co
-    trap_densities = np.array([trap.density for trap in traps], dtype=np.double)
-    trap_release_timescales = np.array(
-        [trap.release_timescale for trap in traps], dtype=np.double
-    )
-    # Third parameter for some trap types
-    trap_third_params = []
-    for trap in traps:
-        if type(trap) == TrapInstantCapture:
-            trap_third_params.append(trap.fractional_volume_none_exposed)
-        elif type(trap) == TrapSlowCapture:
-            trap_third_params.append(trap.capture_timescale)
-        elif type(trap) == TrapInstantCaptureContinuum:
-            trap_third_params.append(trap.release_timescale_sigma)
-        elif type(trap) == TrapSlowCaptureContinuum:
-            trap_third_params.append(trap.release_timescale_sigma)
-    trap_third_params = np.array(trap_third_params, dtype=np.double)
-    # Fourth parameter for some trap types
-    trap_fourth_params = []
-    for trap in traps:
-        if type(trap) == TrapInstantCapture:
-            trap_fourth_params.append(trap.fractional_volume_full_exposed)
-        elif type(trap) == TrapSlowCapture:
-            trap_fourth_params.append(0.0)
-        elif type(trap) == TrapInstantCaptureContinuum:
-            trap_fourth_params.append(0.0)
-        elif type(trap) == TrapSlowCaptureContinuum:
-            trap_fourth_params.append(trap.capture_timescale)
-    trap_fourth_params = np.array(trap_fourth_params, dtype=np.double)
-
-    return (
-        trap_densities,
-        trap_release_timescales,
-        trap_third_params,
-        trap_fourth_params,
-        n_traps_ic,
-        n_traps_sc,
-        n_traps_ic_co,
-        n_traps_sc_co,
-    )
-
-
-def _set_dummy_parameters():
-    """Set dummy variables for add/remove_cti() to pass to the wrapper.
-
-    Returns placeholder arguments in the formats and types required by the
-    cython wrapper's cy_add/remove_cti() for when one of parallel or serial
-    clocking is not being used.
-    """
-    roe = ROE()
-    ccd = CCD([CCDPhase(0.0, 0.0, 0.0, 0.0)], [0.0])
-    trap_densities = np.array([0.0], dtype=np.double)
-    trap_release_timescales = np.array([0.0], dtype=np.double)
-    trap_third_params = np.array([0.0], dtype=np.double)
-    trap_fourth_params = np.array([0.0], dtype=np.double)
-    n_traps_ic = 0
-    n_traps_sc = 0
-    n_traps_ic_co = 0
-    n_traps_sc_co = 0
-
-    return (
-        roe,
-        ccd,
-        trap_densities,
-        trap_release_timescales,
-        trap_third_params,
-        trap_fourth_params,
-        n_traps_ic,
-        n_traps_sc,
-        n_traps_ic_co,
-        n_traps_sc_co,
-    )
-
+import numpy as np
+from typing import List, Optional
+
+try:
+    from arcticpy import wrapper as w
+except ImportError:
+    import wrapper as w
+
+from arcticpy.ccd import CCDPhase, CCD
+from arcticpy.roe import ROE
+from arcticpy.traps import (
+    TrapInstantCapture,
+    TrapSlowCapture,
+    TrapInstantCaptureContinuum,
+    TrapSlowCaptureContinuum,
+)
+from arcticpy.pixel_bounce import PixelBounce, add_pixel_bounce
+from arcticpy.vv_test import VVTestBench
+from arcticpy.read_noise import ReadNoise
+
+
+class ndarray_plus(np.ndarray):
+    """
+    A class that looks and feels like a numpy.ndarry, but contains extra information.
+    The image (a 2D floating point array) will be returned as one of these, because
+    it can also include e.g. a Verification and Validation test that CTI correction
+    has reduced trailing, or an estimate of the covariance between adjacent pixels
+    that was induced by the correction.
+    """
+    def __new__(
+        cls, 
+        values: np.ndarray,
+        covariance: np.ndarray=None,
+        vv_test: bool=None,
+        *args,
+        **kwargs
+    ):
+        obj = values.view(cls)
+        if vv_test is None:
+            if hasattr(obj, "vv_test"):
+                vv_test = obj.vv_test
+            else: vv_test = VVTestBench()
+        obj.vv_test = vv_test
+        if covariance is None:
+            covariance = np.zeros((2,2,5,5))
+            #covariance[:,:,2,2]=1.
+        obj.covariance = covariance
+        return obj
+        
+    def __array_finalize__(self, obj):
+        if hasattr(obj, "covariance"):
+            self.covariance = obj.covariance
+    
+        if hasattr(obj, "vv_test"):
+            self.vv_test = obj.vv_test
+        else:
+            self.vv_test = None
+  
+def add_cti(
+    image,
+    header=None,
+    # Parallel
+    parallel_ccd=None,
+    parallel_roe=None,
+    parallel_traps=None,
+    parallel_express=0,
+    parallel_window_offset=0,
+    parallel_window_start=0,
+    parallel_window_stop=-1,
+    parallel_time_start=0,
+    parallel_time_stop=-1,
+    parallel_prune_n_electrons=1e-10,
+    parallel_prune_frequency=20,
+    # Serial
+    serial_ccd=None,
+    serial_roe=None,
+    serial_traps=None,
+    serial_express=0,
+    serial_window_offset=0,
+    serial_window_start=0,
+    serial_window_stop=-1,
+    serial_time_start=0,
+    serial_time_stop=-1,
+    serial_prune_n_electrons=1e-10,
+    serial_prune_frequency=20,
+    # Combined
+    allow_negative_pixels=1,
+    # Pixel bounce
+    pixel_bounce_list : Optional[List[PixelBounce]] = None,
+    # Output
+    vv_test=False,
+    verbosity=1,
+    iteration=0,
+):
+    """
+    Wrapper for arctic's add_cti() in src/cti.cpp, see its documentation.
+
+    Add CTI trails to an image by trapping, releasing, and moving electrons
+    along their independent columns, for parallel and/or serial clocking.
+
+    This wrapper extracts individual numbers and arrays from the user-input
+    objects to pass to the C++ via Cython. See cy_add_cti() in wrapper.pyx and
+    add_cti() in interface.cpp.
+
+    Parameters (where different to add_cti() in src/cti.cpp)
+    ----------
+    parallel_traps : [Trap]
+    serial_traps : [Trap]
+        The 1D arrays of all trap species objects, for parallel and serial
+        clocking. The core arctic's add_cti() requires the different types of
+        traps to be provided in separate arrays. Here, mutliple trap types can
+        be passed in a single array, which will be separated by the wrapper.
+
+    verbosity : int (opt.)
+        The verbosity parameter to control the amount of printed information:
+            0   No printing (except errors etc).
+            1   Standard.
+            2   Extra details. For some reason, this makes things go VERY slow.
+
+    vv_test : Bool
+        If True, run a "Verification & Validation" test by fitting exponential
+        curves to pixels in overscan regions (if available). The results can 
+        be accessed as image.vv_test.results[-1].parallel.best_fit_trap_density
+    
+    Inputs
+    ------
+    image : 2D numpy.ndarray of pixel values
+    
+    Outputs
+    -------
+    image : 
+        is not just a numpy.ndarray, but has additional properties vv_test and
+        covariance
+    """
+    # ========
+    # Extract inputs and/or set dummy variables to pass to the wrapper
+    # ========
+    # Parallel
+    if parallel_traps is not None:
+        (
+            parallel_trap_densities,
+            parallel_trap_release_timescales,
+            parallel_trap_third_params,
+            parallel_trap_fourth_params,
+            parallel_n_traps_ic,
+            parallel_n_traps_sc,
+            parallel_n_traps_ic_co,
+            parallel_n_traps_sc_co,
+        ) = _extract_trap_parameters(parallel_traps)
+    else:
+        # No parallel clocking, set dummy variables instead
+        (
+            parallel_roe,
+            parallel_ccd,
+            parallel_trap_densities,
+            parallel_trap_release_timescales,
+            parallel_trap_third_params,
+            parallel_trap_fourth_params,
+            parallel_n_traps_ic,
+            parallel_n_traps_sc,
+            parallel_n_traps_ic_co,
+            parallel_n_traps_sc_co,
+        ) = _set_dummy_parameters()
+    parallel_prune_n_es = np.array([parallel_prune_n_electrons], dtype=np.double)
+
+    # Serial
+    if serial_traps is not None:
+        (
+            serial_trap_densities,
+            serial_trap_release_timescales,
+            serial_trap_third_params,
+            serial_trap_fourth_params,
+            serial_n_traps_ic,
+            serial_n_traps_sc,
+            serial_n_traps_ic_co,
+            serial_n_traps_sc_co,
+        ) = _extract_trap_parameters(serial_traps)
+    else:
+        # No serial clocking, set dummy variables instead
+        (
+            serial_roe,
+            serial_ccd,
+            serial_trap_densities,
+            serial_trap_release_timescales,
+            serial_trap_third_params,
+            serial_trap_fourth_params,
+            serial_n_traps_ic,
+            serial_n_traps_sc,
+            serial_n_traps_ic_co,
+            serial_n_traps_sc_co,
+        ) = _set_dummy_parameters()
+    serial_prune_n_es = np.array([serial_prune_n_electrons], dtype=np.double)
+    
+    image = np.copy(image).astype(np.double)
+
+
+    # ========
+    # V&V test
+    # ========
+    # Measure level of trailing into overscan regions of input image
+    vv=VVTestBench(
+        parallel_roe=parallel_roe, 
+        parallel_ccd=parallel_ccd, 
+        parallel_traps=parallel_traps, 
+        serial_roe=serial_roe, 
+        serial_ccd=serial_ccd, 
+        serial_traps=serial_traps, 
+        sum_of_exponentials=True,
+        verbose=(verbosity >= 1)
+    )
+    if vv_test:
+        vv_test_before=vv.test(image)
+
+    # ========
+    # Add CTI
+    # ========
+    # Pass the extracted inputs to C++ via the cython wrapper
+    image_trailed = w.cy_add_cti(
+        image,
+        # ========
+        # Parallel
+        # ========
+        # ROE
+        parallel_roe.dwell_times,
+        parallel_roe.prescan_offset,
+        parallel_roe.overscan_start,
+        parallel_roe.empty_traps_between_columns,
+        parallel_roe.empty_traps_for_first_transfers,
+        parallel_roe.force_release_away_from_readout,
+        parallel_roe.use_integer_express_matrix,
+        parallel_roe.n_pumps,
+        parallel_roe.type,
+        # CCD
+        parallel_ccd.fraction_of_traps_per_phase,
+        parallel_ccd.full_well_depths,
+        parallel_ccd.well_notch_depths,
+        parallel_ccd.well_fill_powers,
+        parallel_ccd.first_electron_fills,
+        # Traps
+        parallel_trap_densities,
+        parallel_trap_release_timescales,
+        parallel_trap_third_params,
+        parallel_trap_fourth_params,
+        parallel_n_traps_ic,
+        parallel_n_traps_sc,
+        parallel_n_traps_ic_co,
+        parallel_n_traps_sc_co,
+        # Misc
+        parallel_express,
+        parallel_window_offset,
+        parallel_window_start,
+        parallel_window_stop,
+        parallel_time_start,
+        parallel_time_stop,
+        parallel_prune_n_es,
+        parallel_prune_frequency,
+        # ========
+        # Serial
+        # ========
+        # ROE
+        serial_roe.dwell_times,
+        serial_roe.prescan_offset,
+        serial_roe.overscan_start,
+        serial_roe.empty_traps_between_columns,
+        serial_roe.empty_traps_for_first_transfers,
+        serial_roe.force_release_away_from_readout,
+        serial_roe.use_integer_express_matrix,
+        serial_roe.n_pumps,
+        serial_roe.type,
+        # CCD
+        serial_ccd.fraction_of_traps_per_phase,
+        serial_ccd.full_well_depths,
+        serial_ccd.well_notch_depths,
+        serial_ccd.well_fill_powers,
+        serial_ccd.first_electron_fills,
+        # Traps
+        serial_trap_densities,
+        serial_trap_release_timescales,
+        serial_trap_third_params,
+        serial_trap_fourth_params,
+        serial_n_traps_ic,
+        serial_n_traps_sc,
+        serial_n_traps_ic_co,
+        serial_n_traps_sc_co,
+        # Misc
+        serial_express,
+        serial_window_offset,
+        serial_window_start,
+        serial_window_stop,
+        serial_time_start,
+        serial_time_stop,
+        serial_prune_n_es,
+        serial_prune_frequency,
+        # ========
+        # Combined
+        # ========
+        allow_negative_pixels,
+        # ========
+        # Output
+        # ========
+        verbosity,
+        iteration,
+    )
+
+    # ================
+    # Add pixel bounce
+    # ================
+    if pixel_bounce_list is not None:
+
+        bias_total = np.zeros(image.shape)
+        
+        for pixel_bounce in pixel_bounce_list:
+            bias = pixel_bounce.perturb_bias(
+                image_trailed,
+                parallel_window_start=parallel_window_start,
+                parallel_window_stop=parallel_window_stop,
+                serial_window_start=serial_window_start,
+                serial_window_stop=serial_window_stop,
+                verbosity=verbosity,
+            )
+            bias_total += bias
+
+        image_trailed -= bias_total[:, :]
+
+    # ========
+    # V&V test
+    # ========
+    # Re-measure level of trailing into overscan regions of output image
+    if vv_test:
+        vv_test_after=vv.test(image_trailed,
+                              parallel_valid_columns = vv_test_before.parallel.valid_columns,
+                              parallel_pixels_pre_cti = vv_test_before.parallel.pixels_pre_cti,
+                              parallel_fit_bias = True, 
+                              parallel_model_bias = vv_test_before.parallel.best_fit_bias)
+
+    # ===================
+    # Update image header
+    # ===================
+    if header is not None:
+        header.set(
+            "cticor",
+            "ArCTIc",
+            "CTI addition performed using ArCTIc v" + w.cy_version_arctic(),
+        )
+        header.set(
+            "ctipar",
+            "ArCTIc",
+            "CTI addition performed using ArCTIc v" + w.cy_version_arctic(),
+        )
+
+    return ndarray_plus(image_trailed, vv_test = vv)
+
+
+def remove_cti(
+    image,
+    n_iterations,
+    header=None,
+    # Parallel
+    parallel_ccd=None,
+    parallel_roe=None,
+    parallel_traps=None,
+    parallel_express=0,
+    parallel_window_offset=0,
+    parallel_window_start=0,
+    parallel_window_stop=-1,
+    parallel_time_start=0,
+    parallel_time_stop=-1,
+    parallel_prune_n_electrons=1e-10,
+    parallel_prune_frequency=20,
+    # Serial
+    serial_ccd=None,
+    serial_roe=None,
+    serial_traps=None,
+    serial_express=0,
+    serial_window_offset=0,
+    serial_window_start=0,
+    serial_window_stop=-1,
+    serial_time_start=0,
+    serial_time_stop=-1,
+    serial_prune_n_electrons=1e-10,
+    serial_prune_frequency=20,
+    # Combined
+    allow_negative_pixels=1,
+    # Pixel bounce
+    pixel_bounce_list : Optional[List[PixelBounce]] = None,
+    # Optional: read noise de-amplification
+    remove_read_noise=False,
+    # Optional: perform Validation & Verification test
+    vv_test=False,
+    # Output
+    verbosity=1,
+):
+    """
+    Wrapper for arctic's remove_cti() in src/cti.cpp, see its documentation.
+
+    Remove CTI trails from an image by first modelling the addition of CTI, for
+    parallel and/or serial clocking, using the add_cti() wrapper.
+
+    Parameters (where different to remove_cti() in src/cti.cpp)
+    ----------
+    parallel_traps : [Trap]
+    serial_traps : [Trap]
+        The 1D arrays of all trap species objects, for parallel and serial
+        clocking. The core arctic's add_cti() requires the different types of
+        traps to be provided in separate arrays. Here, mutliple trap types can
+        be passed in a single array, which will be separated by the wrapper.
+
+    verbosity : int (opt.)
+        The verbosity parameter to control the amount of printed information:
+            0   No printing (except errors etc).
+            1   Standard.
+            2   Extra details. For some reason, this makes things go VERY slow.
+
+    vv_test : Bool
+        If True, run a "Verification & Validation" test by fitting exponential
+        curves to pixels in overscan regions (if available). The results can 
+        be accessed as image.vv_test.results[-1].parallel.best_fit_trap_density
+    
+    remove_read_noise : Bool
+        If True, estimate and remove the white readout noise in the image
+        before doing CTI correction, to prevent its being amplified. 
+        Add the noise back afterwards.
+        
+    Inputs
+    ------
+    image : 2D numpy.ndarray of pixel values
+    
+    Outputs
+    -------
+    image : 
+        is not just a numpy.ndarray, but has additional properties vv_test and
+        covariance
+    """
+    image = np.copy(image).astype(np.double)
+    image_remove_cti = np.copy(image).astype(np.double)
+
+    if verbosity >= 1:
+        w.cy_print_version()
+
+    # ========
+    # V&V test
+    # ========
+    # Measure level of trailing into overscan regions of input image
+    covariance = None
+    vv=VVTestBench(
+        parallel_roe=parallel_roe, 
+        parallel_ccd=parallel_ccd, 
+        parallel_traps=parallel_traps, 
+        serial_roe=serial_roe, 
+        serial_ccd=serial_ccd, 
+        serial_traps=serial_traps, 
+        sum_of_exponentials=True,
+        verbose=(verbosity >= 1)
+    )
+    if vv_test:
+       vv_test_before=vv.test(image)
+    
+    # =======================
+    # Attempt to estimate and remove read noise, so it it not amplified
+    # =======================
+    if remove_read_noise > 0:
+        sigma_readnoise = 1. * remove_read_noise
+        read_noise = ReadNoise(sigma_readnoise=sigma_readnoise)
+        print(read_noise.sigmaRN)
+        image_remove_cti,image_read_noise = read_noise.generate_SR_frames_from_image(image_remove_cti)
+        print("\nMean and rms of modelled read noise:",np.mean(image_read_noise),np.std(image_read_noise))        
+
+    # =======================
+    # Estimate the image with removed CTI more accurately each iteration
+    # =======================
+    for iteration in range(1, n_iterations + 1):
+        if verbosity >= 1:
+            print("Iter %d: " % iteration, end="", flush=True)
+
+        # Model the effect of adding CTI trails
+        image_add_cti = add_cti(
+            image=image_remove_cti,
+            header=header,
+            # Parallel
+            parallel_ccd=parallel_ccd,
+            parallel_roe=parallel_roe,
+            parallel_traps=parallel_traps,
+            parallel_express=parallel_express,
+            parallel_window_offset=parallel_window_offset,
+            parallel_window_start=parallel_window_start,
+            parallel_window_stop=parallel_window_stop,
+            parallel_time_start=parallel_time_start,
+            parallel_time_stop=parallel_time_stop,
+            parallel_prune_n_electrons=parallel_prune_n_electrons,
+            parallel_prune_frequency=parallel_prune_frequency,
+            # Serial
+            serial_ccd=serial_ccd,
+            serial_roe=serial_roe,
+            serial_traps=serial_traps,
+            serial_express=serial_express,
+            serial_window_offset=serial_window_offset,
+            serial_window_start=serial_window_start,
+            serial_window_stop=serial_window_stop,
+            serial_time_start=serial_time_start,
+            serial_time_stop=serial_time_stop,
+            serial_prune_n_electrons=serial_prune_n_electrons,
+            serial_prune_frequency=serial_prune_frequency,
+            # Combined
+            allow_negative_pixels=allow_negative_pixels,
+            # Pixel bounce
+            pixel_bounce_list=pixel_bounce_list,
+            # Output
+            verbosity=verbosity,
+            vv_test=False,
+            iteration=iteration
+        )
+
+        # Improve the estimate of the image with CTI trails removed
+        delta = image - image_add_cti
+        if remove_read_noise > 0:
+            delta -= image_read_noise
+            # Doing the following ought to be right, but turns out to bias the
+            # mean of the output image
+            #delta_squared = delta ** 2
+            #delta *= delta_squared / ( delta_squared + read_noise.sigmaRN ** 2 )
+        image_remove_cti += delta
+        
+        # Prevent unphysical, negative image values
+        # Hack to get long iteractions to converge faster
+        # Warning: this can introduce biases in e.g. dark exposures
+        if not allow_negative_pixels:
+            if iteration == 1:
+                image_remove_cti[image_remove_cti < 0.0] = 0.0
+            
+    # =======================
+    # Add back the read noise, if it had been removed
+    # =======================
+    if remove_read_noise > 0:
+        image_remove_cti += image_read_noise
+        #
+        # TO DO: Estimate residual covariance due to read noise
+        #        This will eventually be calculated via a call like
+        #
+        #        covariance = read_noise.measure_simulated_covariance_corners()
+        #
+        # But that's not yet finished. For now...
+        covariance = np.zeros((2,2,5,5))
+        covariance[:,:,2,2]=read_noise.sigmaRN
+           
+    # ========
+    # V&V test
+    # ========
+    # Re-measure level of trailing into overscan regions of output image
+    if vv_test:
+        vv_test_after=vv.test(image_remove_cti,
+                              parallel_valid_columns = vv_test_before.parallel.valid_columns,
+                              parallel_pixels_pre_cti = vv_test_before.parallel.pixels_pre_cti,
+                              parallel_fit_bias = True, 
+                              parallel_model_bias = vv_test_before.parallel.best_fit_bias)
+        
+    # ===================
+    # Update image header
+    # ===================
+    if header is not None:
+        header.set(
+            "cticor",
+            "ArCTIc",
+            "CTI correction performed using ArCTIc v" + w.cy_version_arctic(),
+        )
+        header.set(
+            "ctipar",
+            "ArCTIc",
+            "CTI correction performed using ArCTIc v" + w.cy_version_arctic(),
+        )
+        
+    return ndarray_plus(image_remove_cti, vv_test = vv, covariance = covariance)
+
+
+
+def CTI_model_for_HST_ACS(date):
+    """
+    Return arcticpy objects that provide a preset CTI model for the Hubble Space
+    Telescope (HST) Advanced Camera for Surveys (ACS).
+
+    The returned objects are ready to be passed to add_cti() or remove_cti(),
+    for parallel clocking.
+
+    See Massey et al. (2014). Updated model and references coming soon.
+
+    Parameters
+    ----------
+    date : float
+        The Julian date. Should not be before the ACS launch date.
+
+    Returns
+    -------
+    roe : ROE
+        The ROE object that describes the read-out electronics.
+
+    ccd : CCD
+        The CCD object that describes how electrons fill the volume.
+
+    traps : [Trap]
+        A list of trap objects that set the parameters for each trap species.
+    """
+    # Julian dates
+    date_acs_launch = 2452334.5  # ACS launched, SM3B, 01 March 2002
+    date_T_change = 2453920.0  # Temperature changed, 03 July 2006
+    date_sm4_repair = 2454968.0  # ACS repaired, SM4, 16 May 2009
+
+    assert date >= date_acs_launch, "Date must be after ACS launch (2002/03/01)"
+
+    # Trap species
+    relative_densities = np.array([0.17, 0.45, 0.38])
+    if date < date_T_change:
+        release_times = np.array([0.48, 4.86, 20.6])
+    else:
+        release_times = np.array([0.74, 7.70, 37.0])
+
+    # Density evolution
+    if date < date_sm4_repair:
+        initial_total_trap_density = 0.017845
+        trap_growth_rate = 3.5488e-4
+    else:
+        initial_total_trap_density = -0.246591 * 1.011
+        trap_growth_rate = 0.000558980 * 1.011
+    total_trap_density = initial_total_trap_density + trap_growth_rate * (
+        date - date_acs_launch
+    )
+    trap_densities = relative_densities * total_trap_density
+
+    # arctic objects
+    # There is CTI only in the parallel direction, so don't worry about e.g. serial prescan
+    parallel_roe = ROE(
+        dwell_times=[1.0],
+        empty_traps_between_columns=True,
+        empty_traps_for_first_transfers=False,
+        force_release_away_from_readout=True,
+        use_integer_express_matrix=False,
+        overscan_start=2048
+    )
+    serial_roe = ROE(
+        dwell_times=[1.0],
+        empty_traps_between_columns=True,
+        empty_traps_for_first_transfers=False,
+        force_release_away_from_readout=True,
+        use_integer_express_matrix=False,
+        prescan_length=24,
+        read_noise=4.0
+    )
+
+    # Single-phase CCD
+    parallel_ccd = CCD(full_well_depth=84700, well_notch_depth=0.0, well_fill_power=0.478)
+    serial_ccd = CCD(full_well_depth=84700, well_notch_depth=0.0, well_fill_power=0.478)
+
+    # Instant-capture traps
+    parallel_traps = [
+        TrapInstantCapture(
+            density=trap_densities[i], release_timescale=release_times[i]
+        )
+        for i in range(len(trap_densities))
+    ]
+    serial_traps = None
+
+    return parallel_roe, parallel_ccd, parallel_traps, serial_roe, serial_ccd, serial_traps
+
+################################################ INTERNAL FUNCTIONS
+
+def _extract_trap_parameters(traps):
+    """Extract trap parameters for add/remove_cti() to pass to the wrapper.
+
+    Returns the converted arguments in the formats and types required by the
+    cython wrapper's cy_add/remove_cti().
+    """
+    # Extract trap inputs
+    traps_ic = [trap for trap in traps if type(trap) == TrapInstantCapture]
+    traps_sc = [trap for trap in traps if type(trap) == TrapSlowCapture]
+    traps_ic_co = [trap for trap in traps if type(trap) == TrapInstantCaptureContinuum]
+    traps_sc_co = [trap for trap in traps if type(trap) == TrapSlowCaptureContinuum]
+    n_traps_ic = len(traps_ic)
+    n_traps_sc = len(traps_sc)
+    n_traps_ic_co = len(traps_ic_co)
+    n_traps_sc_co = len(traps_sc_co)
+    if n_traps_sc + n_traps_ic + n_traps_ic_co + n_traps_sc_co != len(traps):
+        raise Exception(
+            "Not all traps extracted successfully (%d instant capture, %d slow capture, %d continuum, %d slow_capture_continuum, %d total)"
+            % (n_traps_ic, n_traps_sc, n_traps_ic_co, n_traps_sc_co, len(traps))
+        )
+
+    # Make sure the order is correct
+    traps = traps_ic + traps_sc + traps_ic_co + traps_sc_co
+    trap_densities = np.array([trap.density for trap in traps], dtype=np.double)
+    trap_release_timescales = np.array(
+        [trap.release_timescale for trap in traps], dtype=np.double
+    )
+    # Third parameter for some trap types
+    trap_third_params = []
+    for trap in traps:
+        if type(trap) == TrapInstantCapture:
+            trap_third_params.append(trap.fractional_volume_none_exposed)
+        elif type(trap) == TrapSlowCapture:
+            trap_third_params.append(trap.capture_timescale)
+        elif type(trap) == TrapInstantCaptureContinuum:
+            trap_third_params.append(trap.release_timescale_sigma)
+        elif type(trap) == TrapSlowCaptureContinuum:
+            trap_third_params.append(trap.release_timescale_sigma)
+    trap_third_params = np.array(trap_third_params, dtype=np.double)
+    # Fourth parameter for some trap types
+    trap_fourth_params = []
+    for trap in traps:
+        if type(trap) == TrapInstantCapture:
+            trap_fourth_params.append(trap.fractional_volume_full_exposed)
+        elif type(trap) == TrapSlowCapture:
+            trap_fourth_params.append(0.0)
+        elif type(trap) == TrapInstantCaptureContinuum:
+            trap_fourth_params.append(0.0)
+        elif type(trap) == TrapSlowCaptureContinuum:
+            trap_fourth_params.append(trap.capture_timescale)
+    trap_fourth_params = np.array(trap_fourth_params, dtype=np.double)
+
+    return (
+        trap_densities,
+        trap_release_timescales,
+        trap_third_params,
+        trap_fourth_params,
+        n_traps_ic,
+        n_traps_sc,
+        n_traps_ic_co,
+        n_traps_sc_co,
+    )
+
+
+def _set_dummy_parameters():
+    """Set dummy variables for add/remove_cti() to pass to the wrapper.
+
+    Returns placeholder arguments in the formats and types required by the
+    cython wrapper's cy_add/remove_cti() for when one of parallel or serial
+    clocking is not being used.
+    """
+    roe = ROE()
+    ccd = CCD([CCDPhase(0.0, 0.0, 0.0, 0.0)], [0.0])
+    trap_densities = np.array([0.0], dtype=np.double)
+    trap_release_timescales = np.array([0.0], dtype=np.double)
+    trap_third_params = np.array([0.0], dtype=np.double)
+    trap_fourth_params = np.array([0.0], dtype=np.double)
+    n_traps_ic = 0
+    n_traps_sc = 0
+    n_traps_ic_co = 0
+    n_traps_sc_co = 0
+
+    return (
+        roe,
+        ccd,
+        trap_densities,
+        trap_release_timescales,
+        trap_third_params,
+        trap_fourth_params,
+        n_traps_ic,
+        n_traps_sc,
+        n_traps_ic_co,
+        n_traps_sc_co,
+    )
+
-- 
2.43.0


From 0732a0e89d68c5eefdb479bd2563f8480112c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 23/45] fix: charge injection readout from a normal readout

---
 python/arcticpy/roe.py | 270 ++++++++++++++++++++---------------------
 1 file changed, 135 insertions(+), 135 deletions(-)

diff --git a/python/arcticpy/roe.py b/python/arcticpy/roe.py
index 130ba6a..9e7a023 100644
--- a/python/arcticpy/roe.py
+++ b/python/arcticpy/roe.py
@@ -1,135 +1,135 @@
-import numpy as np
-
-roe_type_standard = 0
-roe_type_charge_injection = 1
-roe_type_trap_pumping = 2
-
-
-class ROE:
-    def __init__(
-        self,
-        dwell_times=[1.0],
-        prescan_offset=0,
-        prescan_length=0, # Currently nothing is done with this in arctic; just the V&V test
-        overscan_start=-1,
-        empty_traps_between_columns=True,
-        empty_traps_for_first_transfers=False,
-        force_release_away_from_readout=True,
-        use_integer_express_matrix=False,
-        pixel_bounce_kA=0.,
-        pixel_bounce_kv=0.,
-        pixel_bounce_omega=1.,
-        pixel_bounce_gamma=1.,
-        read_noise=0.
-    ):
-        self.dwell_times = np.array(dwell_times, dtype=np.double)
-        self.prescan_offset = prescan_offset
-        self.prescan_length = prescan_length
-        self.overscan_start = overscan_start
-        self.empty_traps_between_columns = empty_traps_between_columns
-        self.empty_traps_for_first_transfers = empty_traps_for_first_transfers
-        self.force_release_away_from_readout = force_release_away_from_readout
-        self.use_integer_express_matrix = use_integer_express_matrix
-        self.pixel_bounce_kA = pixel_bounce_kA
-        self.pixel_bounce_kv = pixel_bounce_kv
-        self.pixel_bounce_omega = pixel_bounce_omega
-        self.pixel_bounce_gamma = pixel_bounce_gamma
-        self.read_noise = read_noise
-        self.n_pumps = -1  # Dummy value
-
-        self.type = roe_type_standard
-
-
-class ROEChargeInjection(ROE):
-    def __init__(
-        self,
-        dwell_times=[1.0],
-        prescan_offset=0,
-        prescan_length=0,
-        overscan_start=-1,
-        empty_traps_between_columns=True,
-        force_release_away_from_readout=True,
-        use_integer_express_matrix=False,
-        pixel_bounce_kA=0.,
-        pixel_bounce_kv=0.,
-        pixel_bounce_omega=1.,
-        pixel_bounce_gamma=1.,
-        read_noise=0.
-    ):
-        ROE.__init__(
-            self,
-            dwell_times=dwell_times,
-            prescan_offset=prescan_offset,
-            prescan_length=prescan_length,
-            overscan_start=overscan_start,
-            empty_traps_between_columns=empty_traps_between_columns,
-            empty_traps_for_first_transfers=False,
-            force_release_away_from_readout=force_release_away_from_readout,
-            use_integer_express_matrix=use_integer_express_matrix,
-            pixel_bounce_kA=pixel_bounce_kA,
-            pixel_bounce_kv=pixel_bounce_kv,
-            pixel_bounce_omega=pixel_bounce_omega,
-            pixel_bounce_gamma=pixel_bounce_gamma,
-            read_noise=read_noise
-        )
-
-        self.type = roe_type_charge_injection
-
-    def from_normal_roe(roe, n_pixels_in_image):
-        """
-        Convert a normal ROE sequence, with all its options, to one modelling
-        charge injection readout.
-        Must specify the number of physical pixels between the charge injection
-        register and the readout node.
-        """
-        return ROEChargeInjection(
-            dwell_times=roe.dwell_times,
-            prescan_offset=roe.prescan_offset + n_pixels_in_image,
-            prescan_length=prescan_length,
-            overscan_start=roe.overscan_start,
-            empty_traps_between_columns=roe.empty_traps_between_columns,
-            force_release_away_from_readout=roe.force_release_away_from_readout,
-            use_integer_express_matrix=roe.use_integer_express_matrix,
-            pixel_bounce_kA=roe.pixel_bounce_kA,
-            pixel_bounce_kv=roe.pixel_bounce_kv,
-            pixel_bounce_omega=roe.pixel_bounce_omega,
-            pixel_bounce_gamma=roe.pixel_bounce_gamma,
-            read_noise=read_noise
-        )
-
-
-class ROETrapPumping(ROE):
-    def __init__(
-        self,
-        dwell_times=[0.5, 0.5],
-        prescan_offset=0,
-        prescan_length=0,
-        overscan_start=-1,
-        n_pumps=1,
-        empty_traps_for_first_transfers=False,
-        use_integer_express_matrix=False,
-        pixel_bounce_kA=0.,
-        pixel_bounce_kv=0.,
-        pixel_bounce_omega=1.,
-        pixel_bounce_gamma=1.,
-        read_noise=0.
-     ):
-        ROE.__init__(
-            self,
-            dwell_times=dwell_times,
-            prescan_offset=prescan_offset,
-            prescan_length=prescan_length,
-            overscan_start=overscan_start,
-            empty_traps_between_columns=True,
-            empty_traps_for_first_transfers=empty_traps_for_first_transfers,
-            force_release_away_from_readout=False,
-            use_integer_express_matrix=use_integer_express_matrix,
-            pixel_bounce_kA=pixel_bounce_kA,
-            pixel_bounce_kv=pixel_bounce_kv,
-            pixel_bounce_omega=pixel_bounce_omega,
-            pixel_bounce_gamma=pixel_bounce_gamma,
-            read_noise=read_noise
-        )
-        self.n_pumps = n_pumps
-
-        self.type = roe_type_trap_pumping
+import numpy as np
+
+roe_type_standard = 0
+roe_type_charge_injection = 1
+roe_type_trap_pumping = 2
+
+
+class ROE:
+    def __init__(
+        self,
+        dwell_times=[1.0],
+        prescan_offset=0,
+        prescan_length=0, # Currently nothing is done with this in arctic; just the V&V test
+        overscan_start=-1,
+        empty_traps_between_columns=True,
+        empty_traps_for_first_transfers=False,
+        force_release_away_from_readout=True,
+        use_integer_express_matrix=False,
+        pixel_bounce_kA=0.,
+        pixel_bounce_kv=0.,
+        pixel_bounce_omega=1.,
+        pixel_bounce_gamma=1.,
+        read_noise=0.
+    ):
+        self.dwell_times = np.array(dwell_times, dtype=np.double)
+        self.prescan_offset = prescan_offset
+        self.prescan_length = prescan_length
+        self.overscan_start = overscan_start
+        self.empty_traps_between_columns = empty_traps_between_columns
+        self.empty_traps_for_first_transfers = empty_traps_for_first_transfers
+        self.force_release_away_from_readout = force_release_away_from_readout
+        self.use_integer_express_matrix = use_integer_express_matrix
+        self.pixel_bounce_kA = pixel_bounce_kA
+        self.pixel_bounce_kv = pixel_bounce_kv
+        self.pixel_bounce_omega = pixel_bounce_omega
+        self.pixel_bounce_gamma = pixel_bounce_gamma
+        self.read_noise = read_noise
+        self.n_pumps = -1  # Dummy value
+
+        self.type = roe_type_standard
+
+
+class ROEChargeInjection(ROE):
+    def __init__(
+        self,
+        dwell_times=[1.0],
+        prescan_offset=0,
+        prescan_length=0,
+        overscan_start=-1,
+        empty_traps_between_columns=True,
+        force_release_away_from_readout=True,
+        use_integer_express_matrix=False,
+        pixel_bounce_kA=0.,
+        pixel_bounce_kv=0.,
+        pixel_bounce_omega=1.,
+        pixel_bounce_gamma=1.,
+        read_noise=0.
+    ):
+        ROE.__init__(
+            self,
+            dwell_times=dwell_times,
+            prescan_offset=prescan_offset,
+            prescan_length=prescan_length,
+            overscan_start=overscan_start,
+            empty_traps_between_columns=empty_traps_between_columns,
+            empty_traps_for_first_transfers=False,
+            force_release_away_from_readout=force_release_away_from_readout,
+            use_integer_express_matrix=use_integer_express_matrix,
+            pixel_bounce_kA=pixel_bounce_kA,
+            pixel_bounce_kv=pixel_bounce_kv,
+            pixel_bounce_omega=pixel_bounce_omega,
+            pixel_bounce_gamma=pixel_bounce_gamma,
+            read_noise=read_noise
+        )
+
+        self.type = roe_type_charge_injection
+
+    def from_normal_roe(roe, n_pixels_in_image):
+        """
+        Convert a normal ROE sequence, with all its options, to one modelling
+        charge injection readout.
+        Must specify the number of physical pixels between the charge injection
+        register and the readout node.
+        """
+        return ROEChargeInjection(
+            dwell_times=roe.dwell_times,
+            prescan_offset=roe.prescan_offset + n_pixels_in_image,
+            prescan_length=roe.prescan_length,
+            overscan_start=roe.overscan_start,
+            empty_traps_between_columns=roe.empty_traps_between_columns,
+            force_release_away_from_readout=roe.force_release_away_from_readout,
+            use_integer_express_matrix=roe.use_integer_express_matrix,
+            pixel_bounce_kA=roe.pixel_bounce_kA,
+            pixel_bounce_kv=roe.pixel_bounce_kv,
+            pixel_bounce_omega=roe.pixel_bounce_omega,
+            pixel_bounce_gamma=roe.pixel_bounce_gamma,
+            read_noise=roe.read_noise
+        )
+
+
+class ROETrapPumping(ROE):
+    def __init__(
+        self,
+        dwell_times=[0.5, 0.5],
+        prescan_offset=0,
+        prescan_length=0,
+        overscan_start=-1,
+        n_pumps=1,
+        empty_traps_for_first_transfers=False,
+        use_integer_express_matrix=False,
+        pixel_bounce_kA=0.,
+        pixel_bounce_kv=0.,
+        pixel_bounce_omega=1.,
+        pixel_bounce_gamma=1.,
+        read_noise=0.
+     ):
+        ROE.__init__(
+            self,
+            dwell_times=dwell_times,
+            prescan_offset=prescan_offset,
+            prescan_length=prescan_length,
+            overscan_start=overscan_start,
+            empty_traps_between_columns=True,
+            empty_traps_for_first_transfers=empty_traps_for_first_transfers,
+            force_release_away_from_readout=False,
+            use_integer_express_matrix=use_integer_express_matrix,
+            pixel_bounce_kA=pixel_bounce_kA,
+            pixel_bounce_kv=pixel_bounce_kv,
+            pixel_bounce_omega=pixel_bounce_omega,
+            pixel_bounce_gamma=pixel_bounce_gamma,
+            read_noise=read_noise
+        )
+        self.n_pumps = n_pumps
+
+        self.type = roe_type_trap_pumping
-- 
2.43.0


From 3ae92e41acfde39c11217ea37d58a5eb6a52ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 24/45] fix: row-by-row pixel bounce and natural frequency

---
 python/arcticpy/pixel_bounce.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 78462ef..80bac09 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -52,7 +52,7 @@ class PixelBounce:
 
     @property
     def omega0(self):
-        return np.sqrt(omega**2 + gamma**2)  # natural frequency of oscillator
+        return np.sqrt(self.omega**2 + self.gamma**2)  # natural frequency of oscillator
 
     def perturb_bias(
             self,
@@ -236,7 +236,7 @@ class PixelBounce:
         # omega = np.sqrt(self.omegaO**2 - self.gamma**2)
         coeffA = 2 * np.exp(-1 * self.gamma * epsilon) * np.cos(self.omega * epsilon)
         coeffB = np.exp(-2 * self.gamma * epsilon)
-        biasm1 = 0.0
+        image = np.copy(image).astype(np.double)
 
         # Read out one column of pixels through the (column of) traps
         n_rows_in_image, n_columns_in_image = image.shape
@@ -248,6 +248,7 @@ class PixelBounce:
             # Initialise bias offset voltage, which should settle during prescan
             # of each row
             bias = np.zeros((1, n_columns_in_image))
+            biasm1 = 0.0
 
             # Each pixel
             # for row_index in window_row_range:
@@ -255,7 +256,7 @@ class PixelBounce:
                 # Store previous values of bias, so difference equation can
                 # compute rates of change
                 biasm2 = copy.copy(biasm1)
-                biasm1 = bias[row_index, column_index - 1]
+                biasm1 = bias[0, column_index - 1]
 
                 # What electronic impulse is being experienced?
                 delta = (
-- 
2.43.0


From 88e1c6d5d338570e1af27edb8d4c3017def40d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 25/45] fix: trail tests of the overscan run at all

---
 python/arcticpy/vv_test.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/arcticpy/vv_test.py b/python/arcticpy/vv_test.py
index 9fafcee..09b7110 100644
--- a/python/arcticpy/vv_test.py
+++ b/python/arcticpy/vv_test.py
@@ -236,7 +236,7 @@ class VVTestBench:
         if valid_columns is None:
             self.print("Finding columns containing (only) background")
             # Extract representative chunk of image to calculate background,
-            y_min = np.min(
+            y_min = max(
                 y_roe.overscan_start - self.nrows_for_background, y_roe.prescan_length
             )
             background_image = image[ y_min:y_roe.overscan_start, x_min:x_max ]
@@ -310,7 +310,7 @@ class VVTestBench:
                 parallel_ccd=y_ccd,
                 parallel_traps=y_traps,
                 parallel_express=0,
-                parallel_window_start=np.min(y_roe.overscan_start-nrows_buffer,0)
+                parallel_window_start=max(y_roe.overscan_start-nrows_buffer,0)
             )
             model_overscan = (model_post_cti[y_roe.overscan_start:]).flatten()
                
@@ -461,9 +461,13 @@ def vv_test(
             serial_ccd=serial_ccd, 
             serial_traps=serial_traps, 
             sum_of_exponentials=sum_of_exponentials,
-            verbose=verbose
+            verbose=verbose,
+            nrows_for_background=nrows_for_background,
+            ncols_min_required=ncols_min_required,
+            sigma_clipping_threshold=sigma_clipping_threshold,
+            sigma_clipping_niter=sigma_clipping_niter
         )
-    result=vv.test(image,
+    result=vv_testbench.test(image,
         parallel_valid_columns  = parallel_valid_columns,
         parallel_pixels_pre_cti = parallel_pixels_pre_cti,
         parallel_model_bias     = parallel_model_bias,
-- 
2.43.0


From 64a58742712ca38e27fa79aa5c3edb9fa66f3a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 26/45] fix: sum of absolute covariance around the centre

---
 python/arcticpy/read_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 5a3596d..3b99fd6 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -1120,5 +1120,5 @@ class CovarianceMatrix(np.ndarray):
         middle = self.middle
         subarray = self[max(middle[0]-n,0):min(middle[0]+n,self.shape[0]),
                         max(middle[1]-n,0):min(middle[1]+n,self.shape[1])]
-        return npabs(subarray).sum() - self.autocorrelation
+        return np.abs(subarray).sum() - self.autocorrelation
 
-- 
2.43.0


From b0c24cb015b24b6e3ae40fea769867669ebf047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 27/45] fix: read-noise model of images in any memory layout

---
 python/arcticpy/wrapper.pyx | 654 ++++++++++++++++++------------------
 1 file changed, 328 insertions(+), 326 deletions(-)

diff --git a/python/arcticpy/wrapper.pyx b/python/arcticpy/wrapper.pyx
index 2e131c8..bb75452 100644
--- a/python/arcticpy/wrapper.pyx
+++ b/python/arcticpy/wrapper.pyx
@@ -1,326 +1,328 @@
-cimport cython
-
-cimport numpy as np
-import numpy as np
-from libcpp.string cimport string
-
-cdef extern from "read_noise.hpp":
-    void determine_read_noise_model(const double* imageIn, const double* imageOut, const int rows, const int cols, const double readNoiseAmp, const double readNoiseAmpFraction, const int smoothCol, double* output);
-
-def cy_determine_read_noise_model(np.ndarray[np.float64_t, ndim=2] arr1, np.ndarray[np.float64_t, ndim=2] arr2, readNoiseAmp, readNoiseAmpFraction, smoothCol):
-    cdef int rows = arr1.shape[0]
-    cdef int cols = arr1.shape[1]
-    cdef np.ndarray[np.float64_t, ndim=2] out = np.zeros((rows, cols), dtype=np.float64)
-    determine_read_noise_model(&arr1[0,0], &arr2[0,0], rows, cols, readNoiseAmp, readNoiseAmpFraction, smoothCol, &out[0,0])
-    return out
-    
-cdef extern from "util.hpp":
-    cdef string version_arctic()
-    void print_version()
-
-cdef extern from "interface.hpp":
-    void print_array(double* array, int length)
-    void print_array_2D(double* array, int n_rows, int n_columns)
-    void add_cti(
-        double* image,
-        int n_rows,
-        int n_columns,
-        # ========
-        # Parallel
-        # ========
-        # ROE
-        double* parallel_dwell_times_in,
-        int parallel_n_steps,
-        int parallel_prescan_offset,
-        int parallel_overscan_start,
-        int parallel_empty_traps_between_columns,
-        int parallel_empty_traps_for_first_transfers,
-        int parallel_force_release_away_from_readout,
-        int parallel_use_integer_express_matrix,
-        int parallel_n_pumps,
-        int parallel_roe_type,
-        # CCD
-        double* parallel_fraction_of_traps_per_phase_in,
-        int parallel_n_phases,
-        double* parallel_full_well_depths,
-        double* parallel_well_notch_depths,
-        double* parallel_well_fill_powers,
-        double* parallel_first_electron_fills,
-        # Traps
-        double* parallel_trap_densities,
-        double* parallel_trap_release_timescales,
-        double* parallel_trap_third_params,
-        double* parallel_trap_fourth_params,
-        int parallel_n_traps_ic,
-        int parallel_n_traps_sc,
-        int parallel_n_traps_ic_co,
-        int parallel_n_traps_sc_co,
-        # Misc
-        int parallel_express,
-        int parallel_window_offset,
-        int parallel_window_start,
-        int parallel_window_stop,
-        int parallel_time_start,
-        int parallel_time_stop,
-        double* parallel_prune_n_electrons, 
-        int parallel_prune_frequency,
-        # ========
-        # Serial
-        # ========
-        # ROE
-        double* serial_dwell_times_in,
-        int serial_n_steps,
-        int serial_prescan_offset,
-        int serial_overscan_start,
-        int serial_empty_traps_between_columns,
-        int serial_empty_traps_for_first_transfers,
-        int serial_force_release_away_from_readout,
-        int serial_use_integer_express_matrix,
-        int serial_n_pumps,
-        int serial_roe_type,
-        # CCD
-        double* serial_fraction_of_traps_per_phase_in,
-        int serial_n_phases,
-        double* serial_full_well_depths,
-        double* serial_well_notch_depths,
-        double* serial_well_fill_powers,
-        double* serial_first_electron_fills,
-        # Traps
-        double* serial_trap_densities,
-        double* serial_trap_release_timescales,
-        double* serial_trap_third_params,
-        double* serial_trap_fourth_params,
-        int serial_n_traps_ic,
-        int serial_n_traps_sc,
-        int serial_n_traps_ic_co,
-        int serial_n_traps_sc_co,
-        # Misc
-        int serial_express,
-        int serial_window_offset,
-        int serial_window_start,
-        int serial_window_stop,
-        int serial_time_start,
-        int serial_time_stop,
-        double* serial_prune_n_electrons, 
-        int serial_prune_frequency,
-        # ========
-        # Combined
-        # ========
-        int allow_negative_pixels,
-        # Output
-        int verbosity,
-        int iteration
-    )
-
-
-def cy_print_version():
-    print_version()
-
-def cy_version_arctic():
-    return version_arctic().decode("utf-8")
-
-def check_contiguous(array):
-    """ Make sure an array is contiguous and C-style. """
-    if not array.flags['C_CONTIGUOUS']:
-        return np.ascontiguousarray(array)
-    else:
-        return array
-
-
-def cy_print_array(np.ndarray[np.double_t, ndim=1] array):
-    array = check_contiguous(array)
-
-    print_array(&array[0], array.shape[0])
-
-
-def cy_print_array_2D(np.ndarray[np.double_t, ndim=2] array):
-    array = check_contiguous(array)
-
-    print_array_2D(&array[0, 0], array.shape[0], array.shape[1])
-
-
-def cy_add_cti(
-    np.ndarray[np.double_t, ndim=2] image,
-    # ========
-    # Parallel
-    # ========
-    # ROE
-    np.ndarray[np.double_t, ndim=1] parallel_dwell_times,
-    int parallel_prescan_offset,
-    int parallel_overscan_start,
-    int parallel_empty_traps_between_columns,
-    int parallel_empty_traps_for_first_transfers,
-    int parallel_force_release_away_from_readout,
-    int parallel_use_integer_express_matrix,
-    int parallel_n_pumps,
-    int parallel_roe_type,
-    # CCD
-    np.ndarray[np.double_t, ndim=1] parallel_fraction_of_traps_per_phase,
-    np.ndarray[np.double_t, ndim=1] parallel_full_well_depths,
-    np.ndarray[np.double_t, ndim=1] parallel_well_notch_depths,
-    np.ndarray[np.double_t, ndim=1] parallel_well_fill_powers,
-    np.ndarray[np.double_t, ndim=1] parallel_first_electron_fills,
-    # Traps
-    np.ndarray[np.double_t, ndim=1] parallel_trap_densities,
-    np.ndarray[np.double_t, ndim=1] parallel_trap_release_timescales,
-    np.ndarray[np.double_t, ndim=1] parallel_trap_third_params,
-    np.ndarray[np.double_t, ndim=1] parallel_trap_fourth_params,
-    int parallel_n_traps_ic,
-    int parallel_n_traps_sc,
-    int parallel_n_traps_ic_co,
-    int parallel_n_traps_sc_co,
-    # Misc
-    int parallel_express,
-    int parallel_window_offset,
-    int parallel_window_start,
-    int parallel_window_stop,
-    int parallel_time_start,
-    int parallel_time_stop,
-    np.ndarray[np.double_t, ndim=1] parallel_prune_n_electrons, 
-    int parallel_prune_frequency,
-    # ========
-    # Serial
-    # ========
-    # ROE
-    np.ndarray[np.double_t, ndim=1] serial_dwell_times,
-    int serial_prescan_offset,
-    int serial_overscan_start,
-    int serial_empty_traps_between_columns,
-    int serial_empty_traps_for_first_transfers,
-    int serial_force_release_away_from_readout,
-    int serial_use_integer_express_matrix,
-    int serial_n_pumps,
-    int serial_roe_type,
-    # CCD
-    np.ndarray[np.double_t, ndim=1] serial_fraction_of_traps_per_phase,
-    np.ndarray[np.double_t, ndim=1] serial_full_well_depths,
-    np.ndarray[np.double_t, ndim=1] serial_well_notch_depths,
-    np.ndarray[np.double_t, ndim=1] serial_well_fill_powers,
-    np.ndarray[np.double_t, ndim=1] serial_first_electron_fills,
-    # Traps
-    np.ndarray[np.double_t, ndim=1] serial_trap_densities,
-    np.ndarray[np.double_t, ndim=1] serial_trap_release_timescales,
-    np.ndarray[np.double_t, ndim=1] serial_trap_third_params,
-    np.ndarray[np.double_t, ndim=1] serial_trap_fourth_params,
-    int serial_n_traps_ic,
-    int serial_n_traps_sc,
-    int serial_n_traps_ic_co,
-    int serial_n_traps_sc_co,
-    # Misc
-    int serial_express,
-    int serial_window_offset,
-    int serial_window_start,
-    int serial_window_stop,
-    int serial_time_start,
-    int serial_time_stop,
-    np.ndarray[np.double_t, ndim=1] serial_prune_n_electrons, 
-    int serial_prune_frequency,
-    # ========
-    # Combined
-    # ========
-    int allow_negative_pixels,
-    # Output
-    int verbosity,
-    int iteration,
-):
-    """
-    Cython wrapper for arctic's add_cti() in src/cti.cpp.
-
-    This wrapper passes the individual numbers and arrays extracted by the
-    python wrapper to the C++ interface. See add_cti() in cti.py and add_cti()
-    in interface.cpp.
-    """
-    image = check_contiguous(image)
-
-    add_cti(
-        &image[0, 0],
-        image.shape[0],
-        image.shape[1],
-        # ========
-        # Parallel
-        # ========
-        # ROE
-        &parallel_dwell_times[0],
-        len(parallel_dwell_times),
-        parallel_prescan_offset,
-        parallel_overscan_start,
-        parallel_empty_traps_between_columns,
-        parallel_empty_traps_for_first_transfers,
-        parallel_force_release_away_from_readout,
-        parallel_use_integer_express_matrix,
-        parallel_n_pumps,
-        parallel_roe_type,
-        # CCD
-        &parallel_fraction_of_traps_per_phase[0],
-        len(parallel_fraction_of_traps_per_phase),
-        &parallel_full_well_depths[0],
-        &parallel_well_notch_depths[0],
-        &parallel_well_fill_powers[0],
-        &parallel_first_electron_fills[0],
-        # Traps
-        &parallel_trap_densities[0],
-        &parallel_trap_release_timescales[0],
-        &parallel_trap_third_params[0],
-        &parallel_trap_fourth_params[0],
-        parallel_n_traps_ic,
-        parallel_n_traps_sc,
-        parallel_n_traps_ic_co,
-        parallel_n_traps_sc_co,
-        # Misc
-        parallel_express,
-        parallel_window_offset,
-        parallel_window_start,
-        parallel_window_stop,
-        parallel_time_start,
-        parallel_time_stop,
-        &parallel_prune_n_electrons[0], 
-        parallel_prune_frequency,
-        # ========
-        # Serial
-        # ========
-        # ROE
-        &serial_dwell_times[0],
-        len(serial_dwell_times),
-        serial_prescan_offset,
-        serial_overscan_start,
-        serial_empty_traps_between_columns,
-        serial_empty_traps_for_first_transfers,
-        serial_force_release_away_from_readout,
-        serial_use_integer_express_matrix,
-        serial_n_pumps,
-        serial_roe_type,
-        # CCD
-        &serial_fraction_of_traps_per_phase[0],
-        len(serial_fraction_of_traps_per_phase),
-        &serial_full_well_depths[0],
-        &serial_well_notch_depths[0],
-        &serial_well_fill_powers[0],
-        &serial_first_electron_fills[0],
-        # Traps
-        &serial_trap_densities[0],
-        &serial_trap_release_timescales[0],
-        &serial_trap_third_params[0],
-        &serial_trap_fourth_params[0],
-        serial_n_traps_ic,
-        serial_n_traps_sc,
-        serial_n_traps_ic_co,
-        serial_n_traps_sc_co,
-        # Misc
-        serial_express,
-        serial_window_offset,
-        serial_window_start,
-        serial_window_stop,
-        serial_time_start,
-        serial_time_stop,
-        &serial_prune_n_electrons[0], 
-        serial_prune_frequency,
-        # ========
-        # Combined
-        # ========
-        allow_negative_pixels,
-        # Output
-        verbosity,
-        iteration
-    )
-
-    return image
+cimport cython
+
+cimport numpy as np
+import numpy as np
+from libcpp.string cimport string
+
+cdef extern from "read_noise.hpp":
+    void determine_read_noise_model(const double* imageIn, const double* imageOut, const int rows, const int cols, const double readNoiseAmp, const double readNoiseAmpFraction, const int smoothCol, double* output);
+
+def cy_determine_read_noise_model(np.ndarray[np.float64_t, ndim=2] arr1, np.ndarray[np.float64_t, ndim=2] arr2, readNoiseAmp, readNoiseAmpFraction, smoothCol):
+    arr1 = check_contiguous(arr1)
+    arr2 = check_contiguous(arr2)
+    cdef int rows = arr1.shape[0]
+    cdef int cols = arr1.shape[1]
+    cdef np.ndarray[np.float64_t, ndim=2] out = np.zeros((rows, cols), dtype=np.float64)
+    determine_read_noise_model(&arr1[0,0], &arr2[0,0], rows, cols, readNoiseAmp, readNoiseAmpFraction, smoothCol, &out[0,0])
+    return out
+    
+cdef extern from "util.hpp":
+    cdef string version_arctic()
+    void print_version()
+
+cdef extern from "interface.hpp":
+    void print_array(double* array, int length)
+    void print_array_2D(double* array, int n_rows, int n_columns)
+    void add_cti(
+        double* image,
+        int n_rows,
+        int n_columns,
+        # ========
+        # Parallel
+        # ========
+        # ROE
+        double* parallel_dwell_times_in,
+        int parallel_n_steps,
+        int parallel_prescan_offset,
+        int parallel_overscan_start,
+        int parallel_empty_traps_between_columns,
+        int parallel_empty_traps_for_first_transfers,
+        int parallel_force_release_away_from_readout,
+        int parallel_use_integer_express_matrix,
+        int parallel_n_pumps,
+        int parallel_roe_type,
+        # CCD
+        double* parallel_fraction_of_traps_per_phase_in,
+        int parallel_n_phases,
+        double* parallel_full_well_depths,
+        double* parallel_well_notch_depths,
+        double* parallel_well_fill_powers,
+        double* parallel_first_electron_fills,
+        # Traps
+        double* parallel_trap_densities,
+        double* parallel_trap_release_timescales,
+        double* parallel_trap_third_params,
+        double* parallel_trap_fourth_params,
+        int parallel_n_traps_ic,
+        int parallel_n_traps_sc,
+        int parallel_n_traps_ic_co,
+        int parallel_n_traps_sc_co,
+        # Misc
+        int parallel_express,
+        int parallel_window_offset,
+        int parallel_window_start,
+        int parallel_window_stop,
+        int parallel_time_start,
+        int parallel_time_stop,
+        double* parallel_prune_n_electrons, 
+        int parallel_prune_frequency,
+        # ========
+        # Serial
+        # ========
+        # ROE
+        double* serial_dwell_times_in,
+        int serial_n_steps,
+        int serial_prescan_offset,
+        int serial_overscan_start,
+        int serial_empty_traps_between_columns,
+        int serial_empty_traps_for_first_transfers,
+        int serial_force_release_away_from_readout,
+        int serial_use_integer_express_matrix,
+        int serial_n_pumps,
+        int serial_roe_type,
+        # CCD
+        double* serial_fraction_of_traps_per_phase_in,
+        int serial_n_phases,
+        double* serial_full_well_depths,
+        double* serial_well_notch_depths,
+        double* serial_well_fill_powers,
+        double* serial_first_electron_fills,
+        # Traps
+        double* serial_trap_densities,
+        double* serial_trap_release_timescales,
+        double* serial_trap_third_params,
+        double* serial_trap_fourth_params,
+        int serial_n_traps_ic,
+        int serial_n_traps_sc,
+        int serial_n_traps_ic_co,
+        int serial_n_traps_sc_co,
+        # Misc
+        int serial_express,
+        int serial_window_offset,
+        int serial_window_start,
+        int serial_window_stop,
+        int serial_time_start,
+        int serial_time_stop,
+        double* serial_prune_n_electrons, 
+        int serial_prune_frequency,
+        # ========
+        # Combined
+        # ========
+        int allow_negative_pixels,
+        # Output
+        int verbosity,
+        int iteration
+    )
+
+
+def cy_print_version():
+    print_version()
+
+def cy_version_arctic():
+    return version_arctic().decode("utf-8")
+
+def check_contiguous(array):
+    """ Make sure an array is contiguous and C-style. """
+    if not array.flags['C_CONTIGUOUS']:
+        return np.ascontiguousarray(array)
+    else:
+        return array
+
+
+def cy_print_array(np.ndarray[np.double_t, ndim=1] array):
+    array = check_contiguous(array)
+
+    print_array(&array[0], array.shape[0])
+
+
+def cy_print_array_2D(np.ndarray[np.double_t, ndim=2] array):
+    array = check_contiguous(array)
+
+    print_array_2D(&array[0, 0], array.shape[0], array.shape[1])
+
+
+def cy_add_cti(
+    np.ndarray[np.double_t, ndim=2] image,
+    # ========
+    # Parallel
+    # ========
+    # ROE
+    np.ndarray[np.double_t, ndim=1] parallel_dwell_times,
+    int parallel_prescan_offset,
+    int parallel_overscan_start,
+    int parallel_empty_traps_between_columns,
+    int parallel_empty_traps_for_first_transfers,
+    int parallel_force_release_away_from_readout,
+    int parallel_use_integer_express_matrix,
+    int parallel_n_pumps,
+    int parallel_roe_type,
+    # CCD
+    np.ndarray[np.double_t, ndim=1] parallel_fraction_of_traps_per_phase,
+    np.ndarray[np.double_t, ndim=1] parallel_full_well_depths,
+    np.ndarray[np.double_t, ndim=1] parallel_well_notch_depths,
+    np.ndarray[np.double_t, ndim=1] parallel_well_fill_powers,
+    np.ndarray[np.double_t, ndim=1] parallel_first_electron_fills,
+    # Traps
+    np.ndarray[np.double_t, ndim=1] parallel_trap_densities,
+    np.ndarray[np.double_t, ndim=1] parallel_trap_release_timescales,
+    np.ndarray[np.double_t, ndim=1] parallel_trap_third_params,
+    np.ndarray[np.double_t, ndim=1] parallel_trap_fourth_params,
+    int parallel_n_traps_ic,
+    int parallel_n_traps_sc,
+    int parallel_n_traps_ic_co,
+    int parallel_n_traps_sc_co,
+    # Misc
+    int parallel_express,
+    int parallel_window_offset,
+    int parallel_window_start,
+    int parallel_window_stop,
+    int parallel_time_start,
+    int parallel_time_stop,
+    np.ndarray[np.double_t, ndim=1] parallel_prune_n_electrons, 
+    int parallel_prune_frequency,
+    # ========
+    # Serial
+    # ========
+    # ROE
+    np.ndarray[np.double_t, ndim=1] serial_dwell_times,
+    int serial_prescan_offset,
+    int serial_overscan_start,
+    int serial_empty_traps_between_columns,
+    int serial_empty_traps_for_first_transfers,
+    int serial_force_release_away_from_readout,
+    int serial_use_integer_express_matrix,
+    int serial_n_pumps,
+    int serial_roe_type,
+    # CCD
+    np.ndarray[np.double_t, ndim=1] serial_fraction_of_traps_per_phase,
+    np.ndarray[np.double_t, ndim=1] serial_full_well_depths,
+    np.ndarray[np.double_t, ndim=1] serial_well_notch_depths,
+    np.ndarray[np.double_t, ndim=1] serial_well_fill_powers,
+    np.ndarray[np.double_t, ndim=1] serial_first_electron_fills,
+    # Traps
+    np.ndarray[np.double_t, ndim=1] serial_trap_densities,
+    np.ndarray[np.double_t, ndim=1] serial_trap_release_timescales,
+    np.ndarray[np.double_t, ndim=1] serial_trap_third_params,
+    np.ndarray[np.double_t, ndim=1] serial_trap_fourth_params,
+    int serial_n_traps_ic,
+    int serial_n_traps_sc,
+    int serial_n_traps_ic_co,
+    int serial_n_traps_sc_co,
+    # Misc
+    int serial_express,
+    int serial_window_offset,
+    int serial_window_start,
+    int serial_window_stop,
+    int serial_time_start,
+    int serial_time_stop,
+    np.ndarray[np.double_t, ndim=1] serial_prune_n_electrons, 
+    int serial_prune_frequency,
+    # ========
+    # Combined
+    # ========
+    int allow_negative_pixels,
+    # Output
+    int verbosity,
+    int iteration,
+):
+    """
+    Cython wrapper for arctic's add_cti() in src/cti.cpp.
+
+    This wrapper passes the individual numbers and arrays extracted by the
+    python wrapper to the C++ interface. See add_cti() in cti.py and add_cti()
+    in interface.cpp.
+    """
+    image = check_contiguous(image)
+
+    add_cti(
+        &image[0, 0],
+        image.shape[0],
+        image.shape[1],
+        # ========
+        # Parallel
+        # ========
+        # ROE
+        &parallel_dwell_times[0],
+        len(parallel_dwell_times),
+        parallel_prescan_offset,
+        parallel_overscan_start,
+        parallel_empty_traps_between_columns,
+        parallel_empty_traps_for_first_transfers,
+        parallel_force_release_away_from_readout,
+        parallel_use_integer_express_matrix,
+        parallel_n_pumps,
+        parallel_roe_type,
+        # CCD
+        &parallel_fraction_of_traps_per_phase[0],
+        len(parallel_fraction_of_traps_per_phase),
+        &parallel_full_well_depths[0],
+        &parallel_well_notch_depths[0],
+        &parallel_well_fill_powers[0],
+        &parallel_first_electron_fills[0],
+        # Traps
+        &parallel_trap_densities[0],
+        &parallel_trap_release_timescales[0],
+        &parallel_trap_third_params[0],
+        &parallel_trap_fourth_params[0],
+        parallel_n_traps_ic,
+        parallel_n_traps_sc,
+        parallel_n_traps_ic_co,
+        parallel_n_traps_sc_co,
+        # Misc
+        parallel_express,
+        parallel_window_offset,
+        parallel_window_start,
+        parallel_window_stop,
+        parallel_time_start,
+        parallel_time_stop,
+        &parallel_prune_n_electrons[0], 
+        parallel_prune_frequency,
+        # ========
+        # Serial
+        # ========
+        # ROE
+        &serial_dwell_times[0],
+        len(serial_dwell_times),
+        serial_prescan_offset,
+        serial_overscan_start,
+        serial_empty_traps_between_columns,
+        serial_empty_traps_for_first_transfers,
+        serial_force_release_away_from_readout,
+        serial_use_integer_express_matrix,
+        serial_n_pumps,
+        serial_roe_type,
+        # CCD
+        &serial_fraction_of_traps_per_phase[0],
+        len(serial_fraction_of_traps_per_phase),
+        &serial_full_well_depths[0],
+        &serial_well_notch_depths[0],
+        &serial_well_fill_powers[0],
+        &serial_first_electron_fills[0],
+        # Traps
+        &serial_trap_densities[0],
+        &serial_trap_release_timescales[0],
+        &serial_trap_third_params[0],
+        &serial_trap_fourth_params[0],
+        serial_n_traps_ic,
+        serial_n_traps_sc,
+        serial_n_traps_ic_co,
+        serial_n_traps_sc_co,
+        # Misc
+        serial_express,
+        serial_window_offset,
+        serial_window_start,
+        serial_window_stop,
+        serial_time_start,
+        serial_time_stop,
+        &serial_prune_n_electrons[0], 
+        serial_prune_frequency,
+        # ========
+        # Combined
+        # ========
+        allow_negative_pixels,
+        # Output
+        verbosity,
+        iteration
+    )
+
+    return image
-- 
2.43.0


From 30b50ce457d6d78b1d200140cb2775335f754a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:33 +0000
Subject: [PATCH 28/45] fix: read-noise model of images one pixel wide

---
 src/read_noise.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/read_noise.cpp b/src/read_noise.cpp
index 9e0b9fa..9c0c04e 100644
--- a/src/read_noise.cpp
+++ b/src/read_noise.cpp
@@ -25,6 +25,21 @@ void determine_read_noise_model(const double* imageIn, const double* imageOut, c
     }    
     
     // get the dval9 average
+    if (rows < 2 || cols < 2) {
+      // a single row or column has no corners or neighbours across it
+      for (int i = 0; i < rows * cols; i++) {
+        int count = 1;
+        if (i > 0) {
+          dval9[i] += dval0[i - 1];
+          count++;
+        }
+        if (i < rows * cols - 1) {
+          dval9[i] += dval0[i + 1];
+          count++;
+        }
+        dval9[i] /= count;
+      }
+    } else {
     // inner part
     for (int i = 1; i < rows - 1; i++) {
 #pragma omp parallel for private(idx)
@@ -104,6 +119,7 @@ void determine_read_noise_model(const double* imageIn, const double* imageOut, c
     dval9[idx] += dval0[idx - cols];  // comparison with top-central neighbour
     dval9[idx] += dval0[idx - cols - 1];  // comparison with top-right neighbour
     dval9[idx] /= 4.0;
+    }
 
 #pragma omp parallel for shared(output, dval0, dval9)
     for (int i = 0; i < cols * rows; i++) {
-- 
2.43.0


From 49239f6be4b40fd0db29283c0884feaefa833a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 29/45] fix: read-noise model without read noise

---
 src/read_noise.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/read_noise.cpp b/src/read_noise.cpp
index 9c0c04e..426b15b 100644
--- a/src/read_noise.cpp
+++ b/src/read_noise.cpp
@@ -1,6 +1,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <math.h>
+#include <float.h>
 #include "util.hpp"
 #include <iostream>
 using namespace std;
@@ -13,7 +14,8 @@ void determine_read_noise_model(const double* imageIn, const double* imageOut, c
   double* dval9 = (double*)malloc(rows * cols * sizeof(double));
     
   double mod_clip = readNoiseAmp * readNoiseAmpFraction;
-  double readNoiseAmp2 = SQUARE(readNoiseAmp);
+  // (positive, so that the weights of equal values are not 0/0 without read noise)
+  double readNoiseAmp2 = fmax(SQUARE(readNoiseAmp), DBL_MIN);
 
     int idx;
     print_v(1, "hello");
-- 
2.43.0


From 757d1391cda0c0503d3be66745fa32d5255b29a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 30/45] fix: continuum distribution of timescales is integrated
 over all of it

The integral over the log-normal distribution stopped at mu + 100 sigma, although
sigma is a width in log(tau): with mu = 50 and sigma = 0.5 a tenth of the traps
was left out and their electrons lost at once.
---
 src/traps.cpp | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index 7505305..6e7cf2c 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -218,8 +218,8 @@ TrapInstantCaptureContinuum::TrapInstantCaptureContinuum(
         f = int_0^inf n(tau) exp(-t_e/tau) dtau
 
     Integrating from 0 to infinity can fail for very small mu and/or sigma, so
-    instead integrate from 0 to (mu + 100 sigma) for a more reliable and very
-    close approximation.
+    instead integrate over log(tau) within 10 sigma of log(mu) for a more
+    reliable and very close approximation.
 
     (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
 
@@ -244,12 +244,14 @@ struct TrICCo_ff_from_te_params {
     double sigma;
 };
 
-double TrICCo_ff_from_te_integrand(double tau, void* params) {
+double TrICCo_ff_from_te_integrand(double log_tau, void* params) {
     struct TrICCo_ff_from_te_params* p = (struct TrICCo_ff_from_te_params*)params;
 
+    double tau = exp(log_tau);
+
     // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
+    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (p->sigma * sqrt(2.0 * M_PI));
 
     // To integrate: n(tau) * fill_frac(tau) dtau
     return n * exp(-p->time_elapsed / tau);
@@ -267,8 +269,8 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
 
     // Prep the integration
     double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double min = log(release_timescale) - 10.0 * release_timescale_sigma;
+    const double max = log(release_timescale) + 10.0 * release_timescale_sigma;
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
@@ -575,12 +577,14 @@ struct TrSCCo_ff_from_te_params {
     double sigma;
 };
 
-double TrSCCo_ff_from_te_integrand(double tau, void* params) {
+double TrSCCo_ff_from_te_integrand(double log_tau, void* params) {
     struct TrSCCo_ff_from_te_params* p = (struct TrSCCo_ff_from_te_params*)params;
 
+    double tau = exp(log_tau);
+
     // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
+    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (p->sigma * sqrt(2.0 * M_PI));
 
     // To integrate: n(tau) * fill_frac(tau) dtau
     return n * exp(-p->time_elapsed / tau);
@@ -598,8 +602,8 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
 
     // Prep the integration
     double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double min = log(release_timescale) - 10.0 * release_timescale_sigma;
+    const double max = log(release_timescale) + 10.0 * release_timescale_sigma;
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
@@ -794,8 +798,8 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction_table(
         f = int_0^inf n(tau) f(tau) dtau
 
     Integrating from 0 to infinity can fail for very small mu and/or sigma, so
-    instead integrate from 0 to (mu + 100 sigma) for a more reliable and very
-    close approximation.
+    instead integrate over log(tau) within 10 sigma of log(mu) for a more
+    reliable and very close approximation.
 
     (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
 
@@ -826,12 +830,14 @@ struct TrSCCo_ff_after_sc_params {
     double dwell_time;
 };
 
-double TrSCCo_ff_after_sc_integrand(double tau, void* params) {
+double TrSCCo_ff_after_sc_integrand(double log_tau, void* params) {
     struct TrSCCo_ff_after_sc_params* p = (struct TrSCCo_ff_after_sc_params*)params;
 
+    double tau = exp(log_tau);
+
     // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
+    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (p->sigma * sqrt(2.0 * M_PI));
 
     // Instant capture
     if (p->capture_rate == 0.0) return n;
@@ -861,8 +867,8 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     double time_elapsed, double dwell_time, gsl_integration_workspace* workspace) {
     // Prep the integration
     double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double min = log(release_timescale) - 10.0 * release_timescale_sigma;
+    const double max = log(release_timescale) + 10.0 * release_timescale_sigma;
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
-- 
2.43.0


From c836355a7d679deb3107291dbdbaa0d90a5cf2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 31/45] fix: slow-capture continuum traps with instant capture
 fill completely

---
 src/traps.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/traps.cpp b/src/traps.cpp
index 6e7cf2c..66fc399 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -865,6 +865,9 @@ double TrSCCo_ff_after_sc_integrand(double log_tau, void* params) {
 
 double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     double time_elapsed, double dwell_time, gsl_integration_workspace* workspace) {
+    // Instant capture fills all traps completely, not just up to rounding errors
+    if (capture_rate == 0.0) return 1.0;
+
     // Prep the integration
     double result, error;
     const double min = log(release_timescale) - 10.0 * release_timescale_sigma;
-- 
2.43.0


From 50d6f73c22302f32c653598f82c7eb6c3db2fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:19 +0000
Subject: [PATCH 32/45] fix: charge injection with no physical pixels divided
 by zero

---
 src/roe.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index a96a865..da703b3 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -657,11 +657,12 @@ void ROEChargeInjection::set_express_matrix_from_rows_and_express(
     // Set defaults
     //int offset = window_offset + prescan_offset;
     int n_transfers = prescan_offset + window_offset + n_rows; // transfers taken by farthest included pixel 
-    if (overscan_start >= 0) n_transfers = prescan_offset + overscan_start - 1;
+    if (overscan_start >= 0) n_transfers = std::max(0, prescan_offset + overscan_start - 1);
     if (express == 0)
         express = n_transfers; // default express to all transfers, and check no larger
     else
         express = std::min(express, n_transfers);
+    express = std::max(express, 1); // one empty pass if there are no transfers at all
     n_express_passes = express;
 
     // Compute the multiplier factors
-- 
2.43.0


From 6cd53d0ea3b829d7fec380117b1881c2ec9b47b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:04 +0000
Subject: [PATCH 33/45] fix: passes that begin with the first pixel resume from
 the traps before it

---
 src/roe.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/roe.cpp b/src/roe.cpp
index da703b3..1741c14 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -399,6 +399,10 @@ void ROE::set_store_trap_states_matrix() {
     // Store on the pixel before where the next express pass will begin, so
     // that the trap states are appropriate for continuing in the next pass
     for (int express_index = 0; express_index < n_express_passes - 1; express_index++) {
+        // If the next pass begins with the first pixel, as with an offset, then
+        // it begins from the same trap states as this one
+        if (express_matrix[(express_index + 1) * n_transfers] > 0.0) continue;
+
         for (row_index = 0; row_index < n_transfers - 1; row_index++) {
             if (express_matrix[(express_index + 1) * n_transfers + row_index + 1] > 0.0)
                 break;
-- 
2.43.0


From 69ecc7e3b1826d851d5f857a502225d7adff0bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 34/45] Revert "fix: trail tests of the overscan run at all"

This reverts commit 88e1c6d5d338570e1af27edb8d4c3017def40d84.
---
 python/arcticpy/vv_test.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/python/arcticpy/vv_test.py b/python/arcticpy/vv_test.py
index 09b7110..9fafcee 100644
--- a/python/arcticpy/vv_test.py
+++ b/python/arcticpy/vv_test.py
@@ -236,7 +236,7 @@ class VVTestBench:
         if valid_columns is None:
             self.print("Finding columns containing (only) background")
             # Extract representative chunk of image to calculate background,
-            y_min = max(
+            y_min = np.min(
                 y_roe.overscan_start - self.nrows_for_background, y_roe.prescan_length
             )
             background_image = image[ y_min:y_roe.overscan_start, x_min:x_max ]
@@ -310,7 +310,7 @@ class VVTestBench:
                 parallel_ccd=y_ccd,
                 parallel_traps=y_traps,
                 parallel_express=0,
-                parallel_window_start=max(y_roe.overscan_start-nrows_buffer,0)
+                parallel_window_start=np.min(y_roe.overscan_start-nrows_buffer,0)
             )
             model_overscan = (model_post_cti[y_roe.overscan_start:]).flatten()
                
@@ -461,13 +461,9 @@ def vv_test(
             serial_ccd=serial_ccd, 
             serial_traps=serial_traps, 
             sum_of_exponentials=sum_of_exponentials,
-            verbose=verbose,
-            nrows_for_background=nrows_for_background,
-            ncols_min_required=ncols_min_required,
-            sigma_clipping_threshold=sigma_clipping_threshold,
-            sigma_clipping_niter=sigma_clipping_niter
+            verbose=verbose
         )
-    result=vv_testbench.test(image,
+    result=vv.test(image,
         parallel_valid_columns  = parallel_valid_columns,
         parallel_pixels_pre_cti = parallel_pixels_pre_cti,
         parallel_model_bias     = parallel_model_bias,
-- 
2.43.0


From 6e8494a8489be3a71f07518280689a50398208ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 35/45] Restore the line endings of the files repaired

---
 include/roe.hpp             |  202 +-
 python/arcticpy/cti.py      | 1516 +++++------
 python/arcticpy/roe.py      |  270 +-
 python/arcticpy/wrapper.pyx |  656 ++---
 src/cti.cpp                 | 1468 +++++------
 src/roe.cpp                 | 1856 ++++++-------
 src/trap_managers.cpp       | 4980 +++++++++++++++++------------------
 src/traps.cpp               | 2002 +++++++-------
 src/util.cpp                |  628 ++---
 9 files changed, 6789 insertions(+), 6789 deletions(-)

diff --git a/include/roe.hpp b/include/roe.hpp
index 461b9e5..de7aa64 100644
--- a/include/roe.hpp
+++ b/include/roe.hpp
@@ -1,101 +1,101 @@
-
-#ifndef ARCTIC_ROE_HPP
-#define ARCTIC_ROE_HPP
-
-#include <valarray>
-
-enum ROEType {
-    roe_type_standard = 0,
-    roe_type_charge_injection = 1,
-    roe_type_trap_pumping = 2
-};
-
-static std::valarray<double> dwell_times_default = {1.0};
-static std::valarray<double> dwell_times_trap_pumping_default = {0.5, 0.5};
-
-class ROEStepPhase {
-   public:
-    ROEStepPhase(){};
-    ROEStepPhase(
-        bool is_high, std::valarray<int> capture_from_which_pixels,
-        std::valarray<int> release_to_which_pixels,
-        std::valarray<double> release_fraction_to_pixels);
-    ~ROEStepPhase(){};
-
-    bool is_high;
-    std::valarray<int> capture_from_which_pixels;
-    std::valarray<int> release_to_which_pixels;
-    std::valarray<double> release_fraction_to_pixels;
-
-    int n_capture_pixels;
-    int n_release_pixels;
-};
-
-class ROE {
-   public:
-    ROE(std::valarray<double>& dwell_times = dwell_times_default,
-        int prescan_offset = 0,
-        int overscan_start = -1,
-        bool empty_traps_between_columns = true,
-        bool empty_traps_for_first_transfers = false,
-        bool force_release_away_from_readout = true,
-        bool use_integer_express_matrix = false);
-    virtual ~ROE(){};
-
-    ROE& operator=(const ROE& roe);
-
-    std::valarray<double> dwell_times;
-    int prescan_offset;
-    int overscan_start;
-    bool empty_traps_between_columns;
-    bool empty_traps_for_first_transfers;
-    bool force_release_away_from_readout;
-    bool use_integer_express_matrix;
-
-    std::valarray<double> express_matrix;
-    std::valarray<bool> store_trap_states_matrix;
-    std::valarray<std::valarray<ROEStepPhase> > clock_sequence;
-
-    ROEType type;
-    int n_steps;
-    int n_phases;
-    int n_express_passes;
-    int n_pumps;
-
-    virtual void set_express_matrix_from_rows_and_express(
-        int n_rows, int express = 0, int window_offset = 0);
-    virtual void set_store_trap_states_matrix();
-    virtual void set_clock_sequence();
-};
-
-class ROEChargeInjection : public ROE {
-   public:
-    ROEChargeInjection(
-        std::valarray<double>& dwell_times = dwell_times_default,
-        int prescan_offset = 0,
-        int overscan_start = -1,
-        bool empty_traps_between_columns = true,
-        bool force_release_away_from_readout = true,
-        bool use_integer_express_matrix = false);
-    virtual ~ROEChargeInjection(){};
-
-    void set_express_matrix_from_rows_and_express(
-        int n_rows, int express = 0, int window_offset = 0);
-    void set_store_trap_states_matrix();
-};
-
-class ROETrapPumping : public ROE {
-   public:
-    ROETrapPumping(
-        std::valarray<double>& dwell_times = dwell_times_trap_pumping_default,
-        int n_pumps = 1, 
-        bool empty_traps_for_first_transfers = true,
-        bool use_integer_express_matrix = false);
-    virtual ~ROETrapPumping(){};
-
-    void set_express_matrix_from_rows_and_express(
-        int n_rows, int express = 0, int window_offset = 0);
-    void set_store_trap_states_matrix();
-};
-
-#endif  // ARCTIC_ROE_HPP
+
+#ifndef ARCTIC_ROE_HPP
+#define ARCTIC_ROE_HPP
+
+#include <valarray>
+
+enum ROEType {
+    roe_type_standard = 0,
+    roe_type_charge_injection = 1,
+    roe_type_trap_pumping = 2
+};
+
+static std::valarray<double> dwell_times_default = {1.0};
+static std::valarray<double> dwell_times_trap_pumping_default = {0.5, 0.5};
+
+class ROEStepPhase {
+   public:
+    ROEStepPhase(){};
+    ROEStepPhase(
+        bool is_high, std::valarray<int> capture_from_which_pixels,
+        std::valarray<int> release_to_which_pixels,
+        std::valarray<double> release_fraction_to_pixels);
+    ~ROEStepPhase(){};
+
+    bool is_high;
+    std::valarray<int> capture_from_which_pixels;
+    std::valarray<int> release_to_which_pixels;
+    std::valarray<double> release_fraction_to_pixels;
+
+    int n_capture_pixels;
+    int n_release_pixels;
+};
+
+class ROE {
+   public:
+    ROE(std::valarray<double>& dwell_times = dwell_times_default,
+        int prescan_offset = 0,
+        int overscan_start = -1,
+        bool empty_traps_between_columns = true,
+        bool empty_traps_for_first_transfers = false,
+        bool force_release_away_from_readout = true,
+        bool use_integer_express_matrix = false);
+    virtual ~ROE(){};
+
+    ROE& operator=(const ROE& roe);
+
+    std::valarray<double> dwell_times;
+    int prescan_offset;
+    int overscan_start;
+    bool empty_traps_between_columns;
+    bool empty_traps_for_first_transfers;
+    bool force_release_away_from_readout;
+    bool use_integer_express_matrix;
+
+    std::valarray<double> express_matrix;
+    std::valarray<bool> store_trap_states_matrix;
+    std::valarray<std::valarray<ROEStepPhase> > clock_sequence;
+
+    ROEType type;
+    int n_steps;
+    int n_phases;
+    int n_express_passes;
+    int n_pumps;
+
+    virtual void set_express_matrix_from_rows_and_express(
+        int n_rows, int express = 0, int window_offset = 0);
+    virtual void set_store_trap_states_matrix();
+    virtual void set_clock_sequence();
+};
+
+class ROEChargeInjection : public ROE {
+   public:
+    ROEChargeInjection(
+        std::valarray<double>& dwell_times = dwell_times_default,
+        int prescan_offset = 0,
+        int overscan_start = -1,
+        bool empty_traps_between_columns = true,
+        bool force_release_away_from_readout = true,
+        bool use_integer_express_matrix = false);
+    virtual ~ROEChargeInjection(){};
+
+    void set_express_matrix_from_rows_and_express(
+        int n_rows, int express = 0, int window_offset = 0);
+    void set_store_trap_states_matrix();
+};
+
+class ROETrapPumping : public ROE {
+   public:
+    ROETrapPumping(
+        std::valarray<double>& dwell_times = dwell_times_trap_pumping_default,
+        int n_pumps = 1, 
+        bool empty_traps_for_first_transfers = true,
+        bool use_integer_express_matrix = false);
+    virtual ~ROETrapPumping(){};
+
+    void set_express_matrix_from_rows_and_express(
+        int n_rows, int express = 0, int window_offset = 0);
+    void set_store_trap_states_matrix();
+};
+
+#endif  // ARCTIC_ROE_HPP
diff --git a/python/arcticpy/cti.py b/python/arcticpy/cti.py
index 4242fc5..3056a40 100644
--- a/python/arcticpy/cti.py
+++ b/python/arcticpy/cti.py
@@ -1,758 +1,758 @@
-import numpy as np
-from typing import List, Optional
-
-try:
-    from arcticpy import wrapper as w
-except ImportError:
-    import wrapper as w
-
-from arcticpy.ccd import CCDPhase, CCD
-from arcticpy.roe import ROE
-from arcticpy.traps import (
-    TrapInstantCapture,
-    TrapSlowCapture,
-    TrapInstantCaptureContinuum,
-    TrapSlowCaptureContinuum,
-)
-from arcticpy.pixel_bounce import PixelBounce, add_pixel_bounce
-from arcticpy.vv_test import VVTestBench
-from arcticpy.read_noise import ReadNoise
-
-
-class ndarray_plus(np.ndarray):
-    """
-    A class that looks and feels like a numpy.ndarry, but contains extra information.
-    The image (a 2D floating point array) will be returned as one of these, because
-    it can also include e.g. a Verification and Validation test that CTI correction
-    has reduced trailing, or an estimate of the covariance between adjacent pixels
-    that was induced by the correction.
-    """
-    def __new__(
-        cls, 
-        values: np.ndarray,
-        covariance: np.ndarray=None,
-        vv_test: bool=None,
-        *args,
-        **kwargs
-    ):
-        obj = values.view(cls)
-        if vv_test is None:
-            if hasattr(obj, "vv_test"):
-                vv_test = obj.vv_test
-            else: vv_test = VVTestBench()
-        obj.vv_test = vv_test
-        if covariance is None:
-            covariance = np.zeros((2,2,5,5))
-            #covariance[:,:,2,2]=1.
-        obj.covariance = covariance
-        return obj
-        
-    def __array_finalize__(self, obj):
-        if hasattr(obj, "covariance"):
-            self.covariance = obj.covariance
-    
-        if hasattr(obj, "vv_test"):
-            self.vv_test = obj.vv_test
-        else:
-            self.vv_test = None
-  
-def add_cti(
-    image,
-    header=None,
-    # Parallel
-    parallel_ccd=None,
-    parallel_roe=None,
-    parallel_traps=None,
-    parallel_express=0,
-    parallel_window_offset=0,
-    parallel_window_start=0,
-    parallel_window_stop=-1,
-    parallel_time_start=0,
-    parallel_time_stop=-1,
-    parallel_prune_n_electrons=1e-10,
-    parallel_prune_frequency=20,
-    # Serial
-    serial_ccd=None,
-    serial_roe=None,
-    serial_traps=None,
-    serial_express=0,
-    serial_window_offset=0,
-    serial_window_start=0,
-    serial_window_stop=-1,
-    serial_time_start=0,
-    serial_time_stop=-1,
-    serial_prune_n_electrons=1e-10,
-    serial_prune_frequency=20,
-    # Combined
-    allow_negative_pixels=1,
-    # Pixel bounce
-    pixel_bounce_list : Optional[List[PixelBounce]] = None,
-    # Output
-    vv_test=False,
-    verbosity=1,
-    iteration=0,
-):
-    """
-    Wrapper for arctic's add_cti() in src/cti.cpp, see its documentation.
-
-    Add CTI trails to an image by trapping, releasing, and moving electrons
-    along their independent columns, for parallel and/or serial clocking.
-
-    This wrapper extracts individual numbers and arrays from the user-input
-    objects to pass to the C++ via Cython. See cy_add_cti() in wrapper.pyx and
-    add_cti() in interface.cpp.
-
-    Parameters (where different to add_cti() in src/cti.cpp)
-    ----------
-    parallel_traps : [Trap]
-    serial_traps : [Trap]
-        The 1D arrays of all trap species objects, for parallel and serial
-        clocking. The core arctic's add_cti() requires the different types of
-        traps to be provided in separate arrays. Here, mutliple trap types can
-        be passed in a single array, which will be separated by the wrapper.
-
-    verbosity : int (opt.)
-        The verbosity parameter to control the amount of printed information:
-            0   No printing (except errors etc).
-            1   Standard.
-            2   Extra details. For some reason, this makes things go VERY slow.
-
-    vv_test : Bool
-        If True, run a "Verification & Validation" test by fitting exponential
-        curves to pixels in overscan regions (if available). The results can 
-        be accessed as image.vv_test.results[-1].parallel.best_fit_trap_density
-    
-    Inputs
-    ------
-    image : 2D numpy.ndarray of pixel values
-    
-    Outputs
-    -------
-    image : 
-        is not just a numpy.ndarray, but has additional properties vv_test and
-        covariance
-    """
-    # ========
-    # Extract inputs and/or set dummy variables to pass to the wrapper
-    # ========
-    # Parallel
-    if parallel_traps is not None:
-        (
-            parallel_trap_densities,
-            parallel_trap_release_timescales,
-            parallel_trap_third_params,
-            parallel_trap_fourth_params,
-            parallel_n_traps_ic,
-            parallel_n_traps_sc,
-            parallel_n_traps_ic_co,
-            parallel_n_traps_sc_co,
-        ) = _extract_trap_parameters(parallel_traps)
-    else:
-        # No parallel clocking, set dummy variables instead
-        (
-            parallel_roe,
-            parallel_ccd,
-            parallel_trap_densities,
-            parallel_trap_release_timescales,
-            parallel_trap_third_params,
-            parallel_trap_fourth_params,
-            parallel_n_traps_ic,
-            parallel_n_traps_sc,
-            parallel_n_traps_ic_co,
-            parallel_n_traps_sc_co,
-        ) = _set_dummy_parameters()
-    parallel_prune_n_es = np.array([parallel_prune_n_electrons], dtype=np.double)
-
-    # Serial
-    if serial_traps is not None:
-        (
-            serial_trap_densities,
-            serial_trap_release_timescales,
-            serial_trap_third_params,
-            serial_trap_fourth_params,
-            serial_n_traps_ic,
-            serial_n_traps_sc,
-            serial_n_traps_ic_co,
-            serial_n_traps_sc_co,
-        ) = _extract_trap_parameters(serial_traps)
-    else:
-        # No serial clocking, set dummy variables instead
-        (
-            serial_roe,
-            serial_ccd,
-            serial_trap_densities,
-            serial_trap_release_timescales,
-            serial_trap_third_params,
-            serial_trap_fourth_params,
-            serial_n_traps_ic,
-            serial_n_traps_sc,
-            serial_n_traps_ic_co,
-            serial_n_traps_sc_co,
-        ) = _set_dummy_parameters()
-    serial_prune_n_es = np.array([serial_prune_n_electrons], dtype=np.double)
-    
-    image = np.copy(image).astype(np.double)
-
-
-    # ========
-    # V&V test
-    # ========
-    # Measure level of trailing into overscan regions of input image
-    vv=VVTestBench(
-        parallel_roe=parallel_roe, 
-        parallel_ccd=parallel_ccd, 
-        parallel_traps=parallel_traps, 
-        serial_roe=serial_roe, 
-        serial_ccd=serial_ccd, 
-        serial_traps=serial_traps, 
-        sum_of_exponentials=True,
-        verbose=(verbosity >= 1)
-    )
-    if vv_test:
-        vv_test_before=vv.test(image)
-
-    # ========
-    # Add CTI
-    # ========
-    # Pass the extracted inputs to C++ via the cython wrapper
-    image_trailed = w.cy_add_cti(
-        image,
-        # ========
-        # Parallel
-        # ========
-        # ROE
-        parallel_roe.dwell_times,
-        parallel_roe.prescan_offset,
-        parallel_roe.overscan_start,
-        parallel_roe.empty_traps_between_columns,
-        parallel_roe.empty_traps_for_first_transfers,
-        parallel_roe.force_release_away_from_readout,
-        parallel_roe.use_integer_express_matrix,
-        parallel_roe.n_pumps,
-        parallel_roe.type,
-        # CCD
-        parallel_ccd.fraction_of_traps_per_phase,
-        parallel_ccd.full_well_depths,
-        parallel_ccd.well_notch_depths,
-        parallel_ccd.well_fill_powers,
-        parallel_ccd.first_electron_fills,
-        # Traps
-        parallel_trap_densities,
-        parallel_trap_release_timescales,
-        parallel_trap_third_params,
-        parallel_trap_fourth_params,
-        parallel_n_traps_ic,
-        parallel_n_traps_sc,
-        parallel_n_traps_ic_co,
-        parallel_n_traps_sc_co,
-        # Misc
-        parallel_express,
-        parallel_window_offset,
-        parallel_window_start,
-        parallel_window_stop,
-        parallel_time_start,
-        parallel_time_stop,
-        parallel_prune_n_es,
-        parallel_prune_frequency,
-        # ========
-        # Serial
-        # ========
-        # ROE
-        serial_roe.dwell_times,
-        serial_roe.prescan_offset,
-        serial_roe.overscan_start,
-        serial_roe.empty_traps_between_columns,
-        serial_roe.empty_traps_for_first_transfers,
-        serial_roe.force_release_away_from_readout,
-        serial_roe.use_integer_express_matrix,
-        serial_roe.n_pumps,
-        serial_roe.type,
-        # CCD
-        serial_ccd.fraction_of_traps_per_phase,
-        serial_ccd.full_well_depths,
-        serial_ccd.well_notch_depths,
-        serial_ccd.well_fill_powers,
-        serial_ccd.first_electron_fills,
-        # Traps
-        serial_trap_densities,
-        serial_trap_release_timescales,
-        serial_trap_third_params,
-        serial_trap_fourth_params,
-        serial_n_traps_ic,
-        serial_n_traps_sc,
-        serial_n_traps_ic_co,
-        serial_n_traps_sc_co,
-        # Misc
-        serial_express,
-        serial_window_offset,
-        serial_window_start,
-        serial_window_stop,
-        serial_time_start,
-        serial_time_stop,
-        serial_prune_n_es,
-        serial_prune_frequency,
-        # ========
-        # Combined
-        # ========
-        allow_negative_pixels,
-        # ========
-        # Output
-        # ========
-        verbosity,
-        iteration,
-    )
-
-    # ================
-    # Add pixel bounce
-    # ================
-    if pixel_bounce_list is not None:
-
-        bias_total = np.zeros(image.shape)
-        
-        for pixel_bounce in pixel_bounce_list:
-            bias = pixel_bounce.perturb_bias(
-                image_trailed,
-                parallel_window_start=parallel_window_start,
-                parallel_window_stop=parallel_window_stop,
-                serial_window_start=serial_window_start,
-                serial_window_stop=serial_window_stop,
-                verbosity=verbosity,
-            )
-            bias_total += bias
-
-        image_trailed -= bias_total[:, :]
-
-    # ========
-    # V&V test
-    # ========
-    # Re-measure level of trailing into overscan regions of output image
-    if vv_test:
-        vv_test_after=vv.test(image_trailed,
-                              parallel_valid_columns = vv_test_before.parallel.valid_columns,
-                              parallel_pixels_pre_cti = vv_test_before.parallel.pixels_pre_cti,
-                              parallel_fit_bias = True, 
-                              parallel_model_bias = vv_test_before.parallel.best_fit_bias)
-
-    # ===================
-    # Update image header
-    # ===================
-    if header is not None:
-        header.set(
-            "cticor",
-            "ArCTIc",
-            "CTI addition performed using ArCTIc v" + w.cy_version_arctic(),
-        )
-        header.set(
-            "ctipar",
-            "ArCTIc",
-            "CTI addition performed using ArCTIc v" + w.cy_version_arctic(),
-        )
-
-    return ndarray_plus(image_trailed, vv_test = vv)
-
-
-def remove_cti(
-    image,
-    n_iterations,
-    header=None,
-    # Parallel
-    parallel_ccd=None,
-    parallel_roe=None,
-    parallel_traps=None,
-    parallel_express=0,
-    parallel_window_offset=0,
-    parallel_window_start=0,
-    parallel_window_stop=-1,
-    parallel_time_start=0,
-    parallel_time_stop=-1,
-    parallel_prune_n_electrons=1e-10,
-    parallel_prune_frequency=20,
-    # Serial
-    serial_ccd=None,
-    serial_roe=None,
-    serial_traps=None,
-    serial_express=0,
-    serial_window_offset=0,
-    serial_window_start=0,
-    serial_window_stop=-1,
-    serial_time_start=0,
-    serial_time_stop=-1,
-    serial_prune_n_electrons=1e-10,
-    serial_prune_frequency=20,
-    # Combined
-    allow_negative_pixels=1,
-    # Pixel bounce
-    pixel_bounce_list : Optional[List[PixelBounce]] = None,
-    # Optional: read noise de-amplification
-    remove_read_noise=False,
-    # Optional: perform Validation & Verification test
-    vv_test=False,
-    # Output
-    verbosity=1,
-):
-    """
-    Wrapper for arctic's remove_cti() in src/cti.cpp, see its documentation.
-
-    Remove CTI trails from an image by first modelling the addition of CTI, for
-    parallel and/or serial clocking, using the add_cti() wrapper.
-
-    Parameters (where different to remove_cti() in src/cti.cpp)
-    ----------
-    parallel_traps : [Trap]
-    serial_traps : [Trap]
-        The 1D arrays of all trap species objects, for parallel and serial
-        clocking. The core arctic's add_cti() requires the different types of
-        traps to be provided in separate arrays. Here, mutliple trap types can
-        be passed in a single array, which will be separated by the wrapper.
-
-    verbosity : int (opt.)
-        The verbosity parameter to control the amount of printed information:
-            0   No printing (except errors etc).
-            1   Standard.
-            2   Extra details. For some reason, this makes things go VERY slow.
-
-    vv_test : Bool
-        If True, run a "Verification & Validation" test by fitting exponential
-        curves to pixels in overscan regions (if available). The results can 
-        be accessed as image.vv_test.results[-1].parallel.best_fit_trap_density
-    
-    remove_read_noise : Bool
-        If True, estimate and remove the white readout noise in the image
-        before doing CTI correction, to prevent its being amplified. 
-        Add the noise back afterwards.
-        
-    Inputs
-    ------
-    image : 2D numpy.ndarray of pixel values
-    
-    Outputs
-    -------
-    image : 
-        is not just a numpy.ndarray, but has additional properties vv_test and
-        covariance
-    """
-    image = np.copy(image).astype(np.double)
-    image_remove_cti = np.copy(image).astype(np.double)
-
-    if verbosity >= 1:
-        w.cy_print_version()
-
-    # ========
-    # V&V test
-    # ========
-    # Measure level of trailing into overscan regions of input image
-    covariance = None
-    vv=VVTestBench(
-        parallel_roe=parallel_roe, 
-        parallel_ccd=parallel_ccd, 
-        parallel_traps=parallel_traps, 
-        serial_roe=serial_roe, 
-        serial_ccd=serial_ccd, 
-        serial_traps=serial_traps, 
-        sum_of_exponentials=True,
-        verbose=(verbosity >= 1)
-    )
-    if vv_test:
-       vv_test_before=vv.test(image)
-    
-    # =======================
-    # Attempt to estimate and remove read noise, so it it not amplified
-    # =======================
-    if remove_read_noise > 0:
-        sigma_readnoise = 1. * remove_read_noise
-        read_noise = ReadNoise(sigma_readnoise=sigma_readnoise)
-        print(read_noise.sigmaRN)
-        image_remove_cti,image_read_noise = read_noise.generate_SR_frames_from_image(image_remove_cti)
-        print("\nMean and rms of modelled read noise:",np.mean(image_read_noise),np.std(image_read_noise))        
-
-    # =======================
-    # Estimate the image with removed CTI more accurately each iteration
-    # =======================
-    for iteration in range(1, n_iterations + 1):
-        if verbosity >= 1:
-            print("Iter %d: " % iteration, end="", flush=True)
-
-        # Model the effect of adding CTI trails
-        image_add_cti = add_cti(
-            image=image_remove_cti,
-            header=header,
-            # Parallel
-            parallel_ccd=parallel_ccd,
-            parallel_roe=parallel_roe,
-            parallel_traps=parallel_traps,
-            parallel_express=parallel_express,
-            parallel_window_offset=parallel_window_offset,
-            parallel_window_start=parallel_window_start,
-            parallel_window_stop=parallel_window_stop,
-            parallel_time_start=parallel_time_start,
-            parallel_time_stop=parallel_time_stop,
-            parallel_prune_n_electrons=parallel_prune_n_electrons,
-            parallel_prune_frequency=parallel_prune_frequency,
-            # Serial
-            serial_ccd=serial_ccd,
-            serial_roe=serial_roe,
-            serial_traps=serial_traps,
-            serial_express=serial_express,
-            serial_window_offset=serial_window_offset,
-            serial_window_start=serial_window_start,
-            serial_window_stop=serial_window_stop,
-            serial_time_start=serial_time_start,
-            serial_time_stop=serial_time_stop,
-            serial_prune_n_electrons=serial_prune_n_electrons,
-            serial_prune_frequency=serial_prune_frequency,
-            # Combined
-            allow_negative_pixels=allow_negative_pixels,
-            # Pixel bounce
-            pixel_bounce_list=pixel_bounce_list,
-            # Output
-            verbosity=verbosity,
-            vv_test=False,
-            iteration=iteration
-        )
-
-        # Improve the estimate of the image with CTI trails removed
-        delta = image - image_add_cti
-        if remove_read_noise > 0:
-            delta -= image_read_noise
-            # Doing the following ought to be right, but turns out to bias the
-            # mean of the output image
-            #delta_squared = delta ** 2
-            #delta *= delta_squared / ( delta_squared + read_noise.sigmaRN ** 2 )
-        image_remove_cti += delta
-        
-        # Prevent unphysical, negative image values
-        # Hack to get long iteractions to converge faster
-        # Warning: this can introduce biases in e.g. dark exposures
-        if not allow_negative_pixels:
-            if iteration == 1:
-                image_remove_cti[image_remove_cti < 0.0] = 0.0
-            
-    # =======================
-    # Add back the read noise, if it had been removed
-    # =======================
-    if remove_read_noise > 0:
-        image_remove_cti += image_read_noise
-        #
-        # TO DO: Estimate residual covariance due to read noise
-        #        This will eventually be calculated via a call like
-        #
-        #        covariance = read_noise.measure_simulated_covariance_corners()
-        #
-        # But that's not yet finished. For now...
-        covariance = np.zeros((2,2,5,5))
-        covariance[:,:,2,2]=read_noise.sigmaRN
-           
-    # ========
-    # V&V test
-    # ========
-    # Re-measure level of trailing into overscan regions of output image
-    if vv_test:
-        vv_test_after=vv.test(image_remove_cti,
-                              parallel_valid_columns = vv_test_before.parallel.valid_columns,
-                              parallel_pixels_pre_cti = vv_test_before.parallel.pixels_pre_cti,
-                              parallel_fit_bias = True, 
-                              parallel_model_bias = vv_test_before.parallel.best_fit_bias)
-        
-    # ===================
-    # Update image header
-    # ===================
-    if header is not None:
-        header.set(
-            "cticor",
-            "ArCTIc",
-            "CTI correction performed using ArCTIc v" + w.cy_version_arctic(),
-        )
-        header.set(
-            "ctipar",
-            "ArCTIc",
-            "CTI correction performed using ArCTIc v" + w.cy_version_arctic(),
-        )
-        
-    return ndarray_plus(image_remove_cti, vv_test = vv, covariance = covariance)
-
-
-
-def CTI_model_for_HST_ACS(date):
-    """
-    Return arcticpy objects that provide a preset CTI model for the Hubble Space
-    Telescope (HST) Advanced Camera for Surveys (ACS).
-
-    The returned objects are ready to be passed to add_cti() or remove_cti(),
-    for parallel clocking.
-
-    See Massey et al. (2014). Updated model and references coming soon.
-
-    Parameters
-    ----------
-    date : float
-        The Julian date. Should not be before the ACS launch date.
-
-    Returns
-    -------
-    roe : ROE
-        The ROE object that describes the read-out electronics.
-
-    ccd : CCD
-        The CCD object that describes how electrons fill the volume.
-
-    traps : [Trap]
-        A list of trap objects that set the parameters for each trap species.
-    """
-    # Julian dates
-    date_acs_launch = 2452334.5  # ACS launched, SM3B, 01 March 2002
-    date_T_change = 2453920.0  # Temperature changed, 03 July 2006
-    date_sm4_repair = 2454968.0  # ACS repaired, SM4, 16 May 2009
-
-    assert date >= date_acs_launch, "Date must be after ACS launch (2002/03/01)"
-
-    # Trap species
-    relative_densities = np.array([0.17, 0.45, 0.38])
-    if date < date_T_change:
-        release_times = np.array([0.48, 4.86, 20.6])
-    else:
-        release_times = np.array([0.74, 7.70, 37.0])
-
-    # Density evolution
-    if date < date_sm4_repair:
-        initial_total_trap_density = 0.017845
-        trap_growth_rate = 3.5488e-4
-    else:
-        initial_total_trap_density = -0.246591 * 1.011
-        trap_growth_rate = 0.000558980 * 1.011
-    total_trap_density = initial_total_trap_density + trap_growth_rate * (
-        date - date_acs_launch
-    )
-    trap_densities = relative_densities * total_trap_density
-
-    # arctic objects
-    # There is CTI only in the parallel direction, so don't worry about e.g. serial prescan
-    parallel_roe = ROE(
-        dwell_times=[1.0],
-        empty_traps_between_columns=True,
-        empty_traps_for_first_transfers=False,
-        force_release_away_from_readout=True,
-        use_integer_express_matrix=False,
-        overscan_start=2048
-    )
-    serial_roe = ROE(
-        dwell_times=[1.0],
-        empty_traps_between_columns=True,
-        empty_traps_for_first_transfers=False,
-        force_release_away_from_readout=True,
-        use_integer_express_matrix=False,
-        prescan_length=24,
-        read_noise=4.0
-    )
-
-    # Single-phase CCD
-    parallel_ccd = CCD(full_well_depth=84700, well_notch_depth=0.0, well_fill_power=0.478)
-    serial_ccd = CCD(full_well_depth=84700, well_notch_depth=0.0, well_fill_power=0.478)
-
-    # Instant-capture traps
-    parallel_traps = [
-        TrapInstantCapture(
-            density=trap_densities[i], release_timescale=release_times[i]
-        )
-        for i in range(len(trap_densities))
-    ]
-    serial_traps = None
-
-    return parallel_roe, parallel_ccd, parallel_traps, serial_roe, serial_ccd, serial_traps
-
-################################################ INTERNAL FUNCTIONS
-
-def _extract_trap_parameters(traps):
-    """Extract trap parameters for add/remove_cti() to pass to the wrapper.
-
-    Returns the converted arguments in the formats and types required by the
-    cython wrapper's cy_add/remove_cti().
-    """
-    # Extract trap inputs
-    traps_ic = [trap for trap in traps if type(trap) == TrapInstantCapture]
-    traps_sc = [trap for trap in traps if type(trap) == TrapSlowCapture]
-    traps_ic_co = [trap for trap in traps if type(trap) == TrapInstantCaptureContinuum]
-    traps_sc_co = [trap for trap in traps if type(trap) == TrapSlowCaptureContinuum]
-    n_traps_ic = len(traps_ic)
-    n_traps_sc = len(traps_sc)
-    n_traps_ic_co = len(traps_ic_co)
-    n_traps_sc_co = len(traps_sc_co)
-    if n_traps_sc + n_traps_ic + n_traps_ic_co + n_traps_sc_co != len(traps):
-        raise Exception(
-            "Not all traps extracted successfully (%d instant capture, %d slow capture, %d continuum, %d slow_capture_continuum, %d total)"
-            % (n_traps_ic, n_traps_sc, n_traps_ic_co, n_traps_sc_co, len(traps))
-        )
-
-    # Make sure the order is correct
-    traps = traps_ic + traps_sc + traps_ic_co + traps_sc_co
-    trap_densities = np.array([trap.density for trap in traps], dtype=np.double)
-    trap_release_timescales = np.array(
-        [trap.release_timescale for trap in traps], dtype=np.double
-    )
-    # Third parameter for some trap types
-    trap_third_params = []
-    for trap in traps:
-        if type(trap) == TrapInstantCapture:
-            trap_third_params.append(trap.fractional_volume_none_exposed)
-        elif type(trap) == TrapSlowCapture:
-            trap_third_params.append(trap.capture_timescale)
-        elif type(trap) == TrapInstantCaptureContinuum:
-            trap_third_params.append(trap.release_timescale_sigma)
-        elif type(trap) == TrapSlowCaptureContinuum:
-            trap_third_params.append(trap.release_timescale_sigma)
-    trap_third_params = np.array(trap_third_params, dtype=np.double)
-    # Fourth parameter for some trap types
-    trap_fourth_params = []
-    for trap in traps:
-        if type(trap) == TrapInstantCapture:
-            trap_fourth_params.append(trap.fractional_volume_full_exposed)
-        elif type(trap) == TrapSlowCapture:
-            trap_fourth_params.append(0.0)
-        elif type(trap) == TrapInstantCaptureContinuum:
-            trap_fourth_params.append(0.0)
-        elif type(trap) == TrapSlowCaptureContinuum:
-            trap_fourth_params.append(trap.capture_timescale)
-    trap_fourth_params = np.array(trap_fourth_params, dtype=np.double)
-
-    return (
-        trap_densities,
-        trap_release_timescales,
-        trap_third_params,
-        trap_fourth_params,
-        n_traps_ic,
-        n_traps_sc,
-        n_traps_ic_co,
-        n_traps_sc_co,
-    )
-
-
-def _set_dummy_parameters():
-    """Set dummy variables for add/remove_cti() to pass to the wrapper.
-
-    Returns placeholder arguments in the formats and types required by the
-    cython wrapper's cy_add/remove_cti() for when one of parallel or serial
-    clocking is not being used.
-    """
-    roe = ROE()
-    ccd = CCD([CCDPhase(0.0, 0.0, 0.0, 0.0)], [0.0])
-    trap_densities = np.array([0.0], dtype=np.double)
-    trap_release_timescales = np.array([0.0], dtype=np.double)
-    trap_third_params = np.array([0.0], dtype=np.double)
-    trap_fourth_params = np.array([0.0], dtype=np.double)
-    n_traps_ic = 0
-    n_traps_sc = 0
-    n_traps_ic_co = 0
-    n_traps_sc_co = 0
-
-    return (
-        roe,
-        ccd,
-        trap_densities,
-        trap_release_timescales,
-        trap_third_params,
-        trap_fourth_params,
-        n_traps_ic,
-        n_traps_sc,
-        n_traps_ic_co,
-        n_traps_sc_co,
-    )
-
+import numpy as np
+from typing import List, Optional
+
+try:
+    from arcticpy import wrapper as w
+except ImportError:
+    import wrapper as w
+
+from arcticpy.ccd import CCDPhase, CCD
+from arcticpy.roe import ROE
+from arcticpy.traps import (
+    TrapInstantCapture,
+    TrapSlowCapture,
+    TrapInstantCaptureContinuum,
+    TrapSlowCaptureContinuum,
+)
+from arcticpy.pixel_bounce import PixelBounce, add_pixel_bounce
+from arcticpy.vv_test import VVTestBench
+from arcticpy.read_noise import ReadNoise
+
+
+class ndarray_plus(np.ndarray):
+    """
+    A class that looks and feels like a numpy.ndarry, but contains extra information.
+    The image (a 2D floating point array) will be returned as one of these, because
+    it can also include e.g. a Verification and Validation test that CTI correction
+    has reduced trailing, or an estimate of the covariance between adjacent pixels
+    that was induced by the correction.
+    """
+    def __new__(
+        cls, 
+        values: np.ndarray,
+        covariance: np.ndarray=None,
+        vv_test: bool=None,
+        *args,
+        **kwargs
+    ):
+        obj = values.view(cls)
+        if vv_test is None:
+            if hasattr(obj, "vv_test"):
+                vv_test = obj.vv_test
+            else: vv_test = VVTestBench()
+        obj.vv_test = vv_test
+        if covariance is None:
+            covariance = np.zeros((2,2,5,5))
+            #covariance[:,:,2,2]=1.
+        obj.covariance = covariance
+        return obj
+        
+    def __array_finalize__(self, obj):
+        if hasattr(obj, "covariance"):
+            self.covariance = obj.covariance
+    
+        if hasattr(obj, "vv_test"):
+            self.vv_test = obj.vv_test
+        else:
+            self.vv_test = None
+  
+def add_cti(
+    image,
+    header=None,
+    # Parallel
+    parallel_ccd=None,
+    parallel_roe=None,
+    parallel_traps=None,
+    parallel_express=0,
+    parallel_window_offset=0,
+    parallel_window_start=0,
+    parallel_window_stop=-1,
+    parallel_time_start=0,
+    parallel_time_stop=-1,
+    parallel_prune_n_electrons=1e-10,
+    parallel_prune_frequency=20,
+    # Serial
+    serial_ccd=None,
+    serial_roe=None,
+    serial_traps=None,
+    serial_express=0,
+    serial_window_offset=0,
+    serial_window_start=0,
+    serial_window_stop=-1,
+    serial_time_start=0,
+    serial_time_stop=-1,
+    serial_prune_n_electrons=1e-10,
+    serial_prune_frequency=20,
+    # Combined
+    allow_negative_pixels=1,
+    # Pixel bounce
+    pixel_bounce_list : Optional[List[PixelBounce]] = None,
+    # Output
+    vv_test=False,
+    verbosity=1,
+    iteration=0,
+):
+    """
+    Wrapper for arctic's add_cti() in src/cti.cpp, see its documentation.
+
+    Add CTI trails to an image by trapping, releasing, and moving electrons
+    along their independent columns, for parallel and/or serial clocking.
+
+    This wrapper extracts individual numbers and arrays from the user-input
+    objects to pass to the C++ via Cython. See cy_add_cti() in wrapper.pyx and
+    add_cti() in interface.cpp.
+
+    Parameters (where different to add_cti() in src/cti.cpp)
+    ----------
+    parallel_traps : [Trap]
+    serial_traps : [Trap]
+        The 1D arrays of all trap species objects, for parallel and serial
+        clocking. The core arctic's add_cti() requires the different types of
+        traps to be provided in separate arrays. Here, mutliple trap types can
+        be passed in a single array, which will be separated by the wrapper.
+
+    verbosity : int (opt.)
+        The verbosity parameter to control the amount of printed information:
+            0   No printing (except errors etc).
+            1   Standard.
+            2   Extra details. For some reason, this makes things go VERY slow.
+
+    vv_test : Bool
+        If True, run a "Verification & Validation" test by fitting exponential
+        curves to pixels in overscan regions (if available). The results can 
+        be accessed as image.vv_test.results[-1].parallel.best_fit_trap_density
+    
+    Inputs
+    ------
+    image : 2D numpy.ndarray of pixel values
+    
+    Outputs
+    -------
+    image : 
+        is not just a numpy.ndarray, but has additional properties vv_test and
+        covariance
+    """
+    # ========
+    # Extract inputs and/or set dummy variables to pass to the wrapper
+    # ========
+    # Parallel
+    if parallel_traps is not None:
+        (
+            parallel_trap_densities,
+            parallel_trap_release_timescales,
+            parallel_trap_third_params,
+            parallel_trap_fourth_params,
+            parallel_n_traps_ic,
+            parallel_n_traps_sc,
+            parallel_n_traps_ic_co,
+            parallel_n_traps_sc_co,
+        ) = _extract_trap_parameters(parallel_traps)
+    else:
+        # No parallel clocking, set dummy variables instead
+        (
+            parallel_roe,
+            parallel_ccd,
+            parallel_trap_densities,
+            parallel_trap_release_timescales,
+            parallel_trap_third_params,
+            parallel_trap_fourth_params,
+            parallel_n_traps_ic,
+            parallel_n_traps_sc,
+            parallel_n_traps_ic_co,
+            parallel_n_traps_sc_co,
+        ) = _set_dummy_parameters()
+    parallel_prune_n_es = np.array([parallel_prune_n_electrons], dtype=np.double)
+
+    # Serial
+    if serial_traps is not None:
+        (
+            serial_trap_densities,
+            serial_trap_release_timescales,
+            serial_trap_third_params,
+            serial_trap_fourth_params,
+            serial_n_traps_ic,
+            serial_n_traps_sc,
+            serial_n_traps_ic_co,
+            serial_n_traps_sc_co,
+        ) = _extract_trap_parameters(serial_traps)
+    else:
+        # No serial clocking, set dummy variables instead
+        (
+            serial_roe,
+            serial_ccd,
+            serial_trap_densities,
+            serial_trap_release_timescales,
+            serial_trap_third_params,
+            serial_trap_fourth_params,
+            serial_n_traps_ic,
+            serial_n_traps_sc,
+            serial_n_traps_ic_co,
+            serial_n_traps_sc_co,
+        ) = _set_dummy_parameters()
+    serial_prune_n_es = np.array([serial_prune_n_electrons], dtype=np.double)
+    
+    image = np.copy(image).astype(np.double)
+
+
+    # ========
+    # V&V test
+    # ========
+    # Measure level of trailing into overscan regions of input image
+    vv=VVTestBench(
+        parallel_roe=parallel_roe, 
+        parallel_ccd=parallel_ccd, 
+        parallel_traps=parallel_traps, 
+        serial_roe=serial_roe, 
+        serial_ccd=serial_ccd, 
+        serial_traps=serial_traps, 
+        sum_of_exponentials=True,
+        verbose=(verbosity >= 1)
+    )
+    if vv_test:
+        vv_test_before=vv.test(image)
+
+    # ========
+    # Add CTI
+    # ========
+    # Pass the extracted inputs to C++ via the cython wrapper
+    image_trailed = w.cy_add_cti(
+        image,
+        # ========
+        # Parallel
+        # ========
+        # ROE
+        parallel_roe.dwell_times,
+        parallel_roe.prescan_offset,
+        parallel_roe.overscan_start,
+        parallel_roe.empty_traps_between_columns,
+        parallel_roe.empty_traps_for_first_transfers,
+        parallel_roe.force_release_away_from_readout,
+        parallel_roe.use_integer_express_matrix,
+        parallel_roe.n_pumps,
+        parallel_roe.type,
+        # CCD
+        parallel_ccd.fraction_of_traps_per_phase,
+        parallel_ccd.full_well_depths,
+        parallel_ccd.well_notch_depths,
+        parallel_ccd.well_fill_powers,
+        parallel_ccd.first_electron_fills,
+        # Traps
+        parallel_trap_densities,
+        parallel_trap_release_timescales,
+        parallel_trap_third_params,
+        parallel_trap_fourth_params,
+        parallel_n_traps_ic,
+        parallel_n_traps_sc,
+        parallel_n_traps_ic_co,
+        parallel_n_traps_sc_co,
+        # Misc
+        parallel_express,
+        parallel_window_offset,
+        parallel_window_start,
+        parallel_window_stop,
+        parallel_time_start,
+        parallel_time_stop,
+        parallel_prune_n_es,
+        parallel_prune_frequency,
+        # ========
+        # Serial
+        # ========
+        # ROE
+        serial_roe.dwell_times,
+        serial_roe.prescan_offset,
+        serial_roe.overscan_start,
+        serial_roe.empty_traps_between_columns,
+        serial_roe.empty_traps_for_first_transfers,
+        serial_roe.force_release_away_from_readout,
+        serial_roe.use_integer_express_matrix,
+        serial_roe.n_pumps,
+        serial_roe.type,
+        # CCD
+        serial_ccd.fraction_of_traps_per_phase,
+        serial_ccd.full_well_depths,
+        serial_ccd.well_notch_depths,
+        serial_ccd.well_fill_powers,
+        serial_ccd.first_electron_fills,
+        # Traps
+        serial_trap_densities,
+        serial_trap_release_timescales,
+        serial_trap_third_params,
+        serial_trap_fourth_params,
+        serial_n_traps_ic,
+        serial_n_traps_sc,
+        serial_n_traps_ic_co,
+        serial_n_traps_sc_co,
+        # Misc
+        serial_express,
+        serial_window_offset,
+        serial_window_start,
+        serial_window_stop,
+        serial_time_start,
+        serial_time_stop,
+        serial_prune_n_es,
+        serial_prune_frequency,
+        # ========
+        # Combined
+        # ========
+        allow_negative_pixels,
+        # ========
+        # Output
+        # ========
+        verbosity,
+        iteration,
+    )
+
+    # ================
+    # Add pixel bounce
+    # ================
+    if pixel_bounce_list is not None:
+
+        bias_total = np.zeros(image.shape)
+        
+        for pixel_bounce in pixel_bounce_list:
+            bias = pixel_bounce.perturb_bias(
+                image_trailed,
+                parallel_window_start=parallel_window_start,
+                parallel_window_stop=parallel_window_stop,
+                serial_window_start=serial_window_start,
+                serial_window_stop=serial_window_stop,
+                verbosity=verbosity,
+            )
+            bias_total += bias
+
+        image_trailed -= bias_total[:, :]
+
+    # ========
+    # V&V test
+    # ========
+    # Re-measure level of trailing into overscan regions of output image
+    if vv_test:
+        vv_test_after=vv.test(image_trailed,
+                              parallel_valid_columns = vv_test_before.parallel.valid_columns,
+                              parallel_pixels_pre_cti = vv_test_before.parallel.pixels_pre_cti,
+                              parallel_fit_bias = True, 
+                              parallel_model_bias = vv_test_before.parallel.best_fit_bias)
+
+    # ===================
+    # Update image header
+    # ===================
+    if header is not None:
+        header.set(
+            "cticor",
+            "ArCTIc",
+            "CTI addition performed using ArCTIc v" + w.cy_version_arctic(),
+        )
+        header.set(
+            "ctipar",
+            "ArCTIc",
+            "CTI addition performed using ArCTIc v" + w.cy_version_arctic(),
+        )
+
+    return ndarray_plus(image_trailed, vv_test = vv)
+
+
+def remove_cti(
+    image,
+    n_iterations,
+    header=None,
+    # Parallel
+    parallel_ccd=None,
+    parallel_roe=None,
+    parallel_traps=None,
+    parallel_express=0,
+    parallel_window_offset=0,
+    parallel_window_start=0,
+    parallel_window_stop=-1,
+    parallel_time_start=0,
+    parallel_time_stop=-1,
+    parallel_prune_n_electrons=1e-10,
+    parallel_prune_frequency=20,
+    # Serial
+    serial_ccd=None,
+    serial_roe=None,
+    serial_traps=None,
+    serial_express=0,
+    serial_window_offset=0,
+    serial_window_start=0,
+    serial_window_stop=-1,
+    serial_time_start=0,
+    serial_time_stop=-1,
+    serial_prune_n_electrons=1e-10,
+    serial_prune_frequency=20,
+    # Combined
+    allow_negative_pixels=1,
+    # Pixel bounce
+    pixel_bounce_list : Optional[List[PixelBounce]] = None,
+    # Optional: read noise de-amplification
+    remove_read_noise=False,
+    # Optional: perform Validation & Verification test
+    vv_test=False,
+    # Output
+    verbosity=1,
+):
+    """
+    Wrapper for arctic's remove_cti() in src/cti.cpp, see its documentation.
+
+    Remove CTI trails from an image by first modelling the addition of CTI, for
+    parallel and/or serial clocking, using the add_cti() wrapper.
+
+    Parameters (where different to remove_cti() in src/cti.cpp)
+    ----------
+    parallel_traps : [Trap]
+    serial_traps : [Trap]
+        The 1D arrays of all trap species objects, for parallel and serial
+        clocking. The core arctic's add_cti() requires the different types of
+        traps to be provided in separate arrays. Here, mutliple trap types can
+        be passed in a single array, which will be separated by the wrapper.
+
+    verbosity : int (opt.)
+        The verbosity parameter to control the amount of printed information:
+            0   No printing (except errors etc).
+            1   Standard.
+            2   Extra details. For some reason, this makes things go VERY slow.
+
+    vv_test : Bool
+        If True, run a "Verification & Validation" test by fitting exponential
+        curves to pixels in overscan regions (if available). The results can 
+        be accessed as image.vv_test.results[-1].parallel.best_fit_trap_density
+    
+    remove_read_noise : Bool
+        If True, estimate and remove the white readout noise in the image
+        before doing CTI correction, to prevent its being amplified. 
+        Add the noise back afterwards.
+        
+    Inputs
+    ------
+    image : 2D numpy.ndarray of pixel values
+    
+    Outputs
+    -------
+    image : 
+        is not just a numpy.ndarray, but has additional properties vv_test and
+        covariance
+    """
+    image = np.copy(image).astype(np.double)
+    image_remove_cti = np.copy(image).astype(np.double)
+
+    if verbosity >= 1:
+        w.cy_print_version()
+
+    # ========
+    # V&V test
+    # ========
+    # Measure level of trailing into overscan regions of input image
+    covariance = None
+    vv=VVTestBench(
+        parallel_roe=parallel_roe, 
+        parallel_ccd=parallel_ccd, 
+        parallel_traps=parallel_traps, 
+        serial_roe=serial_roe, 
+        serial_ccd=serial_ccd, 
+        serial_traps=serial_traps, 
+        sum_of_exponentials=True,
+        verbose=(verbosity >= 1)
+    )
+    if vv_test:
+       vv_test_before=vv.test(image)
+    
+    # =======================
+    # Attempt to estimate and remove read noise, so it it not amplified
+    # =======================
+    if remove_read_noise > 0:
+        sigma_readnoise = 1. * remove_read_noise
+        read_noise = ReadNoise(sigma_readnoise=sigma_readnoise)
+        print(read_noise.sigmaRN)
+        image_remove_cti,image_read_noise = read_noise.generate_SR_frames_from_image(image_remove_cti)
+        print("\nMean and rms of modelled read noise:",np.mean(image_read_noise),np.std(image_read_noise))        
+
+    # =======================
+    # Estimate the image with removed CTI more accurately each iteration
+    # =======================
+    for iteration in range(1, n_iterations + 1):
+        if verbosity >= 1:
+            print("Iter %d: " % iteration, end="", flush=True)
+
+        # Model the effect of adding CTI trails
+        image_add_cti = add_cti(
+            image=image_remove_cti,
+            header=header,
+            # Parallel
+            parallel_ccd=parallel_ccd,
+            parallel_roe=parallel_roe,
+            parallel_traps=parallel_traps,
+            parallel_express=parallel_express,
+            parallel_window_offset=parallel_window_offset,
+            parallel_window_start=parallel_window_start,
+            parallel_window_stop=parallel_window_stop,
+            parallel_time_start=parallel_time_start,
+            parallel_time_stop=parallel_time_stop,
+            parallel_prune_n_electrons=parallel_prune_n_electrons,
+            parallel_prune_frequency=parallel_prune_frequency,
+            # Serial
+            serial_ccd=serial_ccd,
+            serial_roe=serial_roe,
+            serial_traps=serial_traps,
+            serial_express=serial_express,
+            serial_window_offset=serial_window_offset,
+            serial_window_start=serial_window_start,
+            serial_window_stop=serial_window_stop,
+            serial_time_start=serial_time_start,
+            serial_time_stop=serial_time_stop,
+            serial_prune_n_electrons=serial_prune_n_electrons,
+            serial_prune_frequency=serial_prune_frequency,
+            # Combined
+            allow_negative_pixels=allow_negative_pixels,
+            # Pixel bounce
+            pixel_bounce_list=pixel_bounce_list,
+            # Output
+            verbosity=verbosity,
+            vv_test=False,
+            iteration=iteration
+        )
+
+        # Improve the estimate of the image with CTI trails removed
+        delta = image - image_add_cti
+        if remove_read_noise > 0:
+            delta -= image_read_noise
+            # Doing the following ought to be right, but turns out to bias the
+            # mean of the output image
+            #delta_squared = delta ** 2
+            #delta *= delta_squared / ( delta_squared + read_noise.sigmaRN ** 2 )
+        image_remove_cti += delta
+        
+        # Prevent unphysical, negative image values
+        # Hack to get long iteractions to converge faster
+        # Warning: this can introduce biases in e.g. dark exposures
+        if not allow_negative_pixels:
+            if iteration == 1:
+                image_remove_cti[image_remove_cti < 0.0] = 0.0
+            
+    # =======================
+    # Add back the read noise, if it had been removed
+    # =======================
+    if remove_read_noise > 0:
+        image_remove_cti += image_read_noise
+        #
+        # TO DO: Estimate residual covariance due to read noise
+        #        This will eventually be calculated via a call like
+        #
+        #        covariance = read_noise.measure_simulated_covariance_corners()
+        #
+        # But that's not yet finished. For now...
+        covariance = np.zeros((2,2,5,5))
+        covariance[:,:,2,2]=read_noise.sigmaRN
+           
+    # ========
+    # V&V test
+    # ========
+    # Re-measure level of trailing into overscan regions of output image
+    if vv_test:
+        vv_test_after=vv.test(image_remove_cti,
+                              parallel_valid_columns = vv_test_before.parallel.valid_columns,
+                              parallel_pixels_pre_cti = vv_test_before.parallel.pixels_pre_cti,
+                              parallel_fit_bias = True, 
+                              parallel_model_bias = vv_test_before.parallel.best_fit_bias)
+        
+    # ===================
+    # Update image header
+    # ===================
+    if header is not None:
+        header.set(
+            "cticor",
+            "ArCTIc",
+            "CTI correction performed using ArCTIc v" + w.cy_version_arctic(),
+        )
+        header.set(
+            "ctipar",
+            "ArCTIc",
+            "CTI correction performed using ArCTIc v" + w.cy_version_arctic(),
+        )
+        
+    return ndarray_plus(image_remove_cti, vv_test = vv, covariance = covariance)
+
+
+
+def CTI_model_for_HST_ACS(date):
+    """
+    Return arcticpy objects that provide a preset CTI model for the Hubble Space
+    Telescope (HST) Advanced Camera for Surveys (ACS).
+
+    The returned objects are ready to be passed to add_cti() or remove_cti(),
+    for parallel clocking.
+
+    See Massey et al. (2014). Updated model and references coming soon.
+
+    Parameters
+    ----------
+    date : float
+        The Julian date. Should not be before the ACS launch date.
+
+    Returns
+    -------
+    roe : ROE
+        The ROE object that describes the read-out electronics.
+
+    ccd : CCD
+        The CCD object that describes how electrons fill the volume.
+
+    traps : [Trap]
+        A list of trap objects that set the parameters for each trap species.
+    """
+    # Julian dates
+    date_acs_launch = 2452334.5  # ACS launched, SM3B, 01 March 2002
+    date_T_change = 2453920.0  # Temperature changed, 03 July 2006
+    date_sm4_repair = 2454968.0  # ACS repaired, SM4, 16 May 2009
+
+    assert date >= date_acs_launch, "Date must be after ACS launch (2002/03/01)"
+
+    # Trap species
+    relative_densities = np.array([0.17, 0.45, 0.38])
+    if date < date_T_change:
+        release_times = np.array([0.48, 4.86, 20.6])
+    else:
+        release_times = np.array([0.74, 7.70, 37.0])
+
+    # Density evolution
+    if date < date_sm4_repair:
+        initial_total_trap_density = 0.017845
+        trap_growth_rate = 3.5488e-4
+    else:
+        initial_total_trap_density = -0.246591 * 1.011
+        trap_growth_rate = 0.000558980 * 1.011
+    total_trap_density = initial_total_trap_density + trap_growth_rate * (
+        date - date_acs_launch
+    )
+    trap_densities = relative_densities * total_trap_density
+
+    # arctic objects
+    # There is CTI only in the parallel direction, so don't worry about e.g. serial prescan
+    parallel_roe = ROE(
+        dwell_times=[1.0],
+        empty_traps_between_columns=True,
+        empty_traps_for_first_transfers=False,
+        force_release_away_from_readout=True,
+        use_integer_express_matrix=False,
+        overscan_start=2048
+    )
+    serial_roe = ROE(
+        dwell_times=[1.0],
+        empty_traps_between_columns=True,
+        empty_traps_for_first_transfers=False,
+        force_release_away_from_readout=True,
+        use_integer_express_matrix=False,
+        prescan_length=24,
+        read_noise=4.0
+    )
+
+    # Single-phase CCD
+    parallel_ccd = CCD(full_well_depth=84700, well_notch_depth=0.0, well_fill_power=0.478)
+    serial_ccd = CCD(full_well_depth=84700, well_notch_depth=0.0, well_fill_power=0.478)
+
+    # Instant-capture traps
+    parallel_traps = [
+        TrapInstantCapture(
+            density=trap_densities[i], release_timescale=release_times[i]
+        )
+        for i in range(len(trap_densities))
+    ]
+    serial_traps = None
+
+    return parallel_roe, parallel_ccd, parallel_traps, serial_roe, serial_ccd, serial_traps
+
+################################################ INTERNAL FUNCTIONS
+
+def _extract_trap_parameters(traps):
+    """Extract trap parameters for add/remove_cti() to pass to the wrapper.
+
+    Returns the converted arguments in the formats and types required by the
+    cython wrapper's cy_add/remove_cti().
+    """
+    # Extract trap inputs
+    traps_ic = [trap for trap in traps if type(trap) == TrapInstantCapture]
+    traps_sc = [trap for trap in traps if type(trap) == TrapSlowCapture]
+    traps_ic_co = [trap for trap in traps if type(trap) == TrapInstantCaptureContinuum]
+    traps_sc_co = [trap for trap in traps if type(trap) == TrapSlowCaptureContinuum]
+    n_traps_ic = len(traps_ic)
+    n_traps_sc = len(traps_sc)
+    n_traps_ic_co = len(traps_ic_co)
+    n_traps_sc_co = len(traps_sc_co)
+    if n_traps_sc + n_traps_ic + n_traps_ic_co + n_traps_sc_co != len(traps):
+        raise Exception(
+            "Not all traps extracted successfully (%d instant capture, %d slow capture, %d continuum, %d slow_capture_continuum, %d total)"
+            % (n_traps_ic, n_traps_sc, n_traps_ic_co, n_traps_sc_co, len(traps))
+        )
+
+    # Make sure the order is correct
+    traps = traps_ic + traps_sc + traps_ic_co + traps_sc_co
+    trap_densities = np.array([trap.density for trap in traps], dtype=np.double)
+    trap_release_timescales = np.array(
+        [trap.release_timescale for trap in traps], dtype=np.double
+    )
+    # Third parameter for some trap types
+    trap_third_params = []
+    for trap in traps:
+        if type(trap) == TrapInstantCapture:
+            trap_third_params.append(trap.fractional_volume_none_exposed)
+        elif type(trap) == TrapSlowCapture:
+            trap_third_params.append(trap.capture_timescale)
+        elif type(trap) == TrapInstantCaptureContinuum:
+            trap_third_params.append(trap.release_timescale_sigma)
+        elif type(trap) == TrapSlowCaptureContinuum:
+            trap_third_params.append(trap.release_timescale_sigma)
+    trap_third_params = np.array(trap_third_params, dtype=np.double)
+    # Fourth parameter for some trap types
+    trap_fourth_params = []
+    for trap in traps:
+        if type(trap) == TrapInstantCapture:
+            trap_fourth_params.append(trap.fractional_volume_full_exposed)
+        elif type(trap) == TrapSlowCapture:
+            trap_fourth_params.append(0.0)
+        elif type(trap) == TrapInstantCaptureContinuum:
+            trap_fourth_params.append(0.0)
+        elif type(trap) == TrapSlowCaptureContinuum:
+            trap_fourth_params.append(trap.capture_timescale)
+    trap_fourth_params = np.array(trap_fourth_params, dtype=np.double)
+
+    return (
+        trap_densities,
+        trap_release_timescales,
+        trap_third_params,
+        trap_fourth_params,
+        n_traps_ic,
+        n_traps_sc,
+        n_traps_ic_co,
+        n_traps_sc_co,
+    )
+
+
+def _set_dummy_parameters():
+    """Set dummy variables for add/remove_cti() to pass to the wrapper.
+
+    Returns placeholder arguments in the formats and types required by the
+    cython wrapper's cy_add/remove_cti() for when one of parallel or serial
+    clocking is not being used.
+    """
+    roe = ROE()
+    ccd = CCD([CCDPhase(0.0, 0.0, 0.0, 0.0)], [0.0])
+    trap_densities = np.array([0.0], dtype=np.double)
+    trap_release_timescales = np.array([0.0], dtype=np.double)
+    trap_third_params = np.array([0.0], dtype=np.double)
+    trap_fourth_params = np.array([0.0], dtype=np.double)
+    n_traps_ic = 0
+    n_traps_sc = 0
+    n_traps_ic_co = 0
+    n_traps_sc_co = 0
+
+    return (
+        roe,
+        ccd,
+        trap_densities,
+        trap_release_timescales,
+        trap_third_params,
+        trap_fourth_params,
+        n_traps_ic,
+        n_traps_sc,
+        n_traps_ic_co,
+        n_traps_sc_co,
+    )
+
diff --git a/python/arcticpy/roe.py b/python/arcticpy/roe.py
index 9e7a023..7b5a629 100644
--- a/python/arcticpy/roe.py
+++ b/python/arcticpy/roe.py
@@ -1,135 +1,135 @@
-import numpy as np
-
-roe_type_standard = 0
-roe_type_charge_injection = 1
-roe_type_trap_pumping = 2
-
-
-class ROE:
-    def __init__(
-        self,
-        dwell_times=[1.0],
-        prescan_offset=0,
-        prescan_length=0, # Currently nothing is done with this in arctic; just the V&V test
-        overscan_start=-1,
-        empty_traps_between_columns=True,
-        empty_traps_for_first_transfers=False,
-        force_release_away_from_readout=True,
-        use_integer_express_matrix=False,
-        pixel_bounce_kA=0.,
-        pixel_bounce_kv=0.,
-        pixel_bounce_omega=1.,
-        pixel_bounce_gamma=1.,
-        read_noise=0.
-    ):
-        self.dwell_times = np.array(dwell_times, dtype=np.double)
-        self.prescan_offset = prescan_offset
-        self.prescan_length = prescan_length
-        self.overscan_start = overscan_start
-        self.empty_traps_between_columns = empty_traps_between_columns
-        self.empty_traps_for_first_transfers = empty_traps_for_first_transfers
-        self.force_release_away_from_readout = force_release_away_from_readout
-        self.use_integer_express_matrix = use_integer_express_matrix
-        self.pixel_bounce_kA = pixel_bounce_kA
-        self.pixel_bounce_kv = pixel_bounce_kv
-        self.pixel_bounce_omega = pixel_bounce_omega
-        self.pixel_bounce_gamma = pixel_bounce_gamma
-        self.read_noise = read_noise
-        self.n_pumps = -1  # Dummy value
-
-        self.type = roe_type_standard
-
-
-class ROEChargeInjection(ROE):
-    def __init__(
-        self,
-        dwell_times=[1.0],
-        prescan_offset=0,
-        prescan_length=0,
-        overscan_start=-1,
-        empty_traps_between_columns=True,
-        force_release_away_from_readout=True,
-        use_integer_express_matrix=False,
-        pixel_bounce_kA=0.,
-        pixel_bounce_kv=0.,
-        pixel_bounce_omega=1.,
-        pixel_bounce_gamma=1.,
-        read_noise=0.
-    ):
-        ROE.__init__(
-            self,
-            dwell_times=dwell_times,
-            prescan_offset=prescan_offset,
-            prescan_length=prescan_length,
-            overscan_start=overscan_start,
-            empty_traps_between_columns=empty_traps_between_columns,
-            empty_traps_for_first_transfers=False,
-            force_release_away_from_readout=force_release_away_from_readout,
-            use_integer_express_matrix=use_integer_express_matrix,
-            pixel_bounce_kA=pixel_bounce_kA,
-            pixel_bounce_kv=pixel_bounce_kv,
-            pixel_bounce_omega=pixel_bounce_omega,
-            pixel_bounce_gamma=pixel_bounce_gamma,
-            read_noise=read_noise
-        )
-
-        self.type = roe_type_charge_injection
-
-    def from_normal_roe(roe, n_pixels_in_image):
-        """
-        Convert a normal ROE sequence, with all its options, to one modelling
-        charge injection readout.
-        Must specify the number of physical pixels between the charge injection
-        register and the readout node.
-        """
-        return ROEChargeInjection(
-            dwell_times=roe.dwell_times,
-            prescan_offset=roe.prescan_offset + n_pixels_in_image,
-            prescan_length=roe.prescan_length,
-            overscan_start=roe.overscan_start,
-            empty_traps_between_columns=roe.empty_traps_between_columns,
-            force_release_away_from_readout=roe.force_release_away_from_readout,
-            use_integer_express_matrix=roe.use_integer_express_matrix,
-            pixel_bounce_kA=roe.pixel_bounce_kA,
-            pixel_bounce_kv=roe.pixel_bounce_kv,
-            pixel_bounce_omega=roe.pixel_bounce_omega,
-            pixel_bounce_gamma=roe.pixel_bounce_gamma,
-            read_noise=roe.read_noise
-        )
-
-
-class ROETrapPumping(ROE):
-    def __init__(
-        self,
-        dwell_times=[0.5, 0.5],
-        prescan_offset=0,
-        prescan_length=0,
-        overscan_start=-1,
-        n_pumps=1,
-        empty_traps_for_first_transfers=False,
-        use_integer_express_matrix=False,
-        pixel_bounce_kA=0.,
-        pixel_bounce_kv=0.,
-        pixel_bounce_omega=1.,
-        pixel_bounce_gamma=1.,
-        read_noise=0.
-     ):
-        ROE.__init__(
-            self,
-            dwell_times=dwell_times,
-            prescan_offset=prescan_offset,
-            prescan_length=prescan_length,
-            overscan_start=overscan_start,
-            empty_traps_between_columns=True,
-            empty_traps_for_first_transfers=empty_traps_for_first_transfers,
-            force_release_away_from_readout=False,
-            use_integer_express_matrix=use_integer_express_matrix,
-            pixel_bounce_kA=pixel_bounce_kA,
-            pixel_bounce_kv=pixel_bounce_kv,
-            pixel_bounce_omega=pixel_bounce_omega,
-            pixel_bounce_gamma=pixel_bounce_gamma,
-            read_noise=read_noise
-        )
-        self.n_pumps = n_pumps
-
-        self.type = roe_type_trap_pumping
+import numpy as np
+
+roe_type_standard = 0
+roe_type_charge_injection = 1
+roe_type_trap_pumping = 2
+
+
+class ROE:
+    def __init__(
+        self,
+        dwell_times=[1.0],
+        prescan_offset=0,
+        prescan_length=0, # Currently nothing is done with this in arctic; just the V&V test
+        overscan_start=-1,
+        empty_traps_between_columns=True,
+        empty_traps_for_first_transfers=False,
+        force_release_away_from_readout=True,
+        use_integer_express_matrix=False,
+        pixel_bounce_kA=0.,
+        pixel_bounce_kv=0.,
+        pixel_bounce_omega=1.,
+        pixel_bounce_gamma=1.,
+        read_noise=0.
+    ):
+        self.dwell_times = np.array(dwell_times, dtype=np.double)
+        self.prescan_offset = prescan_offset
+        self.prescan_length = prescan_length
+        self.overscan_start = overscan_start
+        self.empty_traps_between_columns = empty_traps_between_columns
+        self.empty_traps_for_first_transfers = empty_traps_for_first_transfers
+        self.force_release_away_from_readout = force_release_away_from_readout
+        self.use_integer_express_matrix = use_integer_express_matrix
+        self.pixel_bounce_kA = pixel_bounce_kA
+        self.pixel_bounce_kv = pixel_bounce_kv
+        self.pixel_bounce_omega = pixel_bounce_omega
+        self.pixel_bounce_gamma = pixel_bounce_gamma
+        self.read_noise = read_noise
+        self.n_pumps = -1  # Dummy value
+
+        self.type = roe_type_standard
+
+
+class ROEChargeInjection(ROE):
+    def __init__(
+        self,
+        dwell_times=[1.0],
+        prescan_offset=0,
+        prescan_length=0,
+        overscan_start=-1,
+        empty_traps_between_columns=True,
+        force_release_away_from_readout=True,
+        use_integer_express_matrix=False,
+        pixel_bounce_kA=0.,
+        pixel_bounce_kv=0.,
+        pixel_bounce_omega=1.,
+        pixel_bounce_gamma=1.,
+        read_noise=0.
+    ):
+        ROE.__init__(
+            self,
+            dwell_times=dwell_times,
+            prescan_offset=prescan_offset,
+            prescan_length=prescan_length,
+            overscan_start=overscan_start,
+            empty_traps_between_columns=empty_traps_between_columns,
+            empty_traps_for_first_transfers=False,
+            force_release_away_from_readout=force_release_away_from_readout,
+            use_integer_express_matrix=use_integer_express_matrix,
+            pixel_bounce_kA=pixel_bounce_kA,
+            pixel_bounce_kv=pixel_bounce_kv,
+            pixel_bounce_omega=pixel_bounce_omega,
+            pixel_bounce_gamma=pixel_bounce_gamma,
+            read_noise=read_noise
+        )
+
+        self.type = roe_type_charge_injection
+
+    def from_normal_roe(roe, n_pixels_in_image):
+        """
+        Convert a normal ROE sequence, with all its options, to one modelling
+        charge injection readout.
+        Must specify the number of physical pixels between the charge injection
+        register and the readout node.
+        """
+        return ROEChargeInjection(
+            dwell_times=roe.dwell_times,
+            prescan_offset=roe.prescan_offset + n_pixels_in_image,
+            prescan_length=roe.prescan_length,
+            overscan_start=roe.overscan_start,
+            empty_traps_between_columns=roe.empty_traps_between_columns,
+            force_release_away_from_readout=roe.force_release_away_from_readout,
+            use_integer_express_matrix=roe.use_integer_express_matrix,
+            pixel_bounce_kA=roe.pixel_bounce_kA,
+            pixel_bounce_kv=roe.pixel_bounce_kv,
+            pixel_bounce_omega=roe.pixel_bounce_omega,
+            pixel_bounce_gamma=roe.pixel_bounce_gamma,
+            read_noise=roe.read_noise
+        )
+
+
+class ROETrapPumping(ROE):
+    def __init__(
+        self,
+        dwell_times=[0.5, 0.5],
+        prescan_offset=0,
+        prescan_length=0,
+        overscan_start=-1,
+        n_pumps=1,
+        empty_traps_for_first_transfers=False,
+        use_integer_express_matrix=False,
+        pixel_bounce_kA=0.,
+        pixel_bounce_kv=0.,
+        pixel_bounce_omega=1.,
+        pixel_bounce_gamma=1.,
+        read_noise=0.
+     ):
+        ROE.__init__(
+            self,
+            dwell_times=dwell_times,
+            prescan_offset=prescan_offset,
+            prescan_length=prescan_length,
+            overscan_start=overscan_start,
+            empty_traps_between_columns=True,
+            empty_traps_for_first_transfers=empty_traps_for_first_transfers,
+            force_release_away_from_readout=False,
+            use_integer_express_matrix=use_integer_express_matrix,
+            pixel_bounce_kA=pixel_bounce_kA,
+            pixel_bounce_kv=pixel_bounce_kv,
+            pixel_bounce_omega=pixel_bounce_omega,
+            pixel_bounce_gamma=pixel_bounce_gamma,
+            read_noise=read_noise
+        )
+        self.n_pumps = n_pumps
+
+        self.type = roe_type_trap_pumping
diff --git a/python/arcticpy/wrapper.pyx b/python/arcticpy/wrapper.pyx
index bb75452..4bee559 100644
--- a/python/arcticpy/wrapper.pyx
+++ b/python/arcticpy/wrapper.pyx
@@ -1,328 +1,328 @@
-cimport cython
-
-cimport numpy as np
-import numpy as np
-from libcpp.string cimport string
-
-cdef extern from "read_noise.hpp":
-    void determine_read_noise_model(const double* imageIn, const double* imageOut, const int rows, const int cols, const double readNoiseAmp, const double readNoiseAmpFraction, const int smoothCol, double* output);
-
-def cy_determine_read_noise_model(np.ndarray[np.float64_t, ndim=2] arr1, np.ndarray[np.float64_t, ndim=2] arr2, readNoiseAmp, readNoiseAmpFraction, smoothCol):
-    arr1 = check_contiguous(arr1)
-    arr2 = check_contiguous(arr2)
-    cdef int rows = arr1.shape[0]
-    cdef int cols = arr1.shape[1]
-    cdef np.ndarray[np.float64_t, ndim=2] out = np.zeros((rows, cols), dtype=np.float64)
-    determine_read_noise_model(&arr1[0,0], &arr2[0,0], rows, cols, readNoiseAmp, readNoiseAmpFraction, smoothCol, &out[0,0])
-    return out
-    
-cdef extern from "util.hpp":
-    cdef string version_arctic()
-    void print_version()
-
-cdef extern from "interface.hpp":
-    void print_array(double* array, int length)
-    void print_array_2D(double* array, int n_rows, int n_columns)
-    void add_cti(
-        double* image,
-        int n_rows,
-        int n_columns,
-        # ========
-        # Parallel
-        # ========
-        # ROE
-        double* parallel_dwell_times_in,
-        int parallel_n_steps,
-        int parallel_prescan_offset,
-        int parallel_overscan_start,
-        int parallel_empty_traps_between_columns,
-        int parallel_empty_traps_for_first_transfers,
-        int parallel_force_release_away_from_readout,
-        int parallel_use_integer_express_matrix,
-        int parallel_n_pumps,
-        int parallel_roe_type,
-        # CCD
-        double* parallel_fraction_of_traps_per_phase_in,
-        int parallel_n_phases,
-        double* parallel_full_well_depths,
-        double* parallel_well_notch_depths,
-        double* parallel_well_fill_powers,
-        double* parallel_first_electron_fills,
-        # Traps
-        double* parallel_trap_densities,
-        double* parallel_trap_release_timescales,
-        double* parallel_trap_third_params,
-        double* parallel_trap_fourth_params,
-        int parallel_n_traps_ic,
-        int parallel_n_traps_sc,
-        int parallel_n_traps_ic_co,
-        int parallel_n_traps_sc_co,
-        # Misc
-        int parallel_express,
-        int parallel_window_offset,
-        int parallel_window_start,
-        int parallel_window_stop,
-        int parallel_time_start,
-        int parallel_time_stop,
-        double* parallel_prune_n_electrons, 
-        int parallel_prune_frequency,
-        # ========
-        # Serial
-        # ========
-        # ROE
-        double* serial_dwell_times_in,
-        int serial_n_steps,
-        int serial_prescan_offset,
-        int serial_overscan_start,
-        int serial_empty_traps_between_columns,
-        int serial_empty_traps_for_first_transfers,
-        int serial_force_release_away_from_readout,
-        int serial_use_integer_express_matrix,
-        int serial_n_pumps,
-        int serial_roe_type,
-        # CCD
-        double* serial_fraction_of_traps_per_phase_in,
-        int serial_n_phases,
-        double* serial_full_well_depths,
-        double* serial_well_notch_depths,
-        double* serial_well_fill_powers,
-        double* serial_first_electron_fills,
-        # Traps
-        double* serial_trap_densities,
-        double* serial_trap_release_timescales,
-        double* serial_trap_third_params,
-        double* serial_trap_fourth_params,
-        int serial_n_traps_ic,
-        int serial_n_traps_sc,
-        int serial_n_traps_ic_co,
-        int serial_n_traps_sc_co,
-        # Misc
-        int serial_express,
-        int serial_window_offset,
-        int serial_window_start,
-        int serial_window_stop,
-        int serial_time_start,
-        int serial_time_stop,
-        double* serial_prune_n_electrons, 
-        int serial_prune_frequency,
-        # ========
-        # Combined
-        # ========
-        int allow_negative_pixels,
-        # Output
-        int verbosity,
-        int iteration
-    )
-
-
-def cy_print_version():
-    print_version()
-
-def cy_version_arctic():
-    return version_arctic().decode("utf-8")
-
-def check_contiguous(array):
-    """ Make sure an array is contiguous and C-style. """
-    if not array.flags['C_CONTIGUOUS']:
-        return np.ascontiguousarray(array)
-    else:
-        return array
-
-
-def cy_print_array(np.ndarray[np.double_t, ndim=1] array):
-    array = check_contiguous(array)
-
-    print_array(&array[0], array.shape[0])
-
-
-def cy_print_array_2D(np.ndarray[np.double_t, ndim=2] array):
-    array = check_contiguous(array)
-
-    print_array_2D(&array[0, 0], array.shape[0], array.shape[1])
-
-
-def cy_add_cti(
-    np.ndarray[np.double_t, ndim=2] image,
-    # ========
-    # Parallel
-    # ========
-    # ROE
-    np.ndarray[np.double_t, ndim=1] parallel_dwell_times,
-    int parallel_prescan_offset,
-    int parallel_overscan_start,
-    int parallel_empty_traps_between_columns,
-    int parallel_empty_traps_for_first_transfers,
-    int parallel_force_release_away_from_readout,
-    int parallel_use_integer_express_matrix,
-    int parallel_n_pumps,
-    int parallel_roe_type,
-    # CCD
-    np.ndarray[np.double_t, ndim=1] parallel_fraction_of_traps_per_phase,
-    np.ndarray[np.double_t, ndim=1] parallel_full_well_depths,
-    np.ndarray[np.double_t, ndim=1] parallel_well_notch_depths,
-    np.ndarray[np.double_t, ndim=1] parallel_well_fill_powers,
-    np.ndarray[np.double_t, ndim=1] parallel_first_electron_fills,
-    # Traps
-    np.ndarray[np.double_t, ndim=1] parallel_trap_densities,
-    np.ndarray[np.double_t, ndim=1] parallel_trap_release_timescales,
-    np.ndarray[np.double_t, ndim=1] parallel_trap_third_params,
-    np.ndarray[np.double_t, ndim=1] parallel_trap_fourth_params,
-    int parallel_n_traps_ic,
-    int parallel_n_traps_sc,
-    int parallel_n_traps_ic_co,
-    int parallel_n_traps_sc_co,
-    # Misc
-    int parallel_express,
-    int parallel_window_offset,
-    int parallel_window_start,
-    int parallel_window_stop,
-    int parallel_time_start,
-    int parallel_time_stop,
-    np.ndarray[np.double_t, ndim=1] parallel_prune_n_electrons, 
-    int parallel_prune_frequency,
-    # ========
-    # Serial
-    # ========
-    # ROE
-    np.ndarray[np.double_t, ndim=1] serial_dwell_times,
-    int serial_prescan_offset,
-    int serial_overscan_start,
-    int serial_empty_traps_between_columns,
-    int serial_empty_traps_for_first_transfers,
-    int serial_force_release_away_from_readout,
-    int serial_use_integer_express_matrix,
-    int serial_n_pumps,
-    int serial_roe_type,
-    # CCD
-    np.ndarray[np.double_t, ndim=1] serial_fraction_of_traps_per_phase,
-    np.ndarray[np.double_t, ndim=1] serial_full_well_depths,
-    np.ndarray[np.double_t, ndim=1] serial_well_notch_depths,
-    np.ndarray[np.double_t, ndim=1] serial_well_fill_powers,
-    np.ndarray[np.double_t, ndim=1] serial_first_electron_fills,
-    # Traps
-    np.ndarray[np.double_t, ndim=1] serial_trap_densities,
-    np.ndarray[np.double_t, ndim=1] serial_trap_release_timescales,
-    np.ndarray[np.double_t, ndim=1] serial_trap_third_params,
-    np.ndarray[np.double_t, ndim=1] serial_trap_fourth_params,
-    int serial_n_traps_ic,
-    int serial_n_traps_sc,
-    int serial_n_traps_ic_co,
-    int serial_n_traps_sc_co,
-    # Misc
-    int serial_express,
-    int serial_window_offset,
-    int serial_window_start,
-    int serial_window_stop,
-    int serial_time_start,
-    int serial_time_stop,
-    np.ndarray[np.double_t, ndim=1] serial_prune_n_electrons, 
-    int serial_prune_frequency,
-    # ========
-    # Combined
-    # ========
-    int allow_negative_pixels,
-    # Output
-    int verbosity,
-    int iteration,
-):
-    """
-    Cython wrapper for arctic's add_cti() in src/cti.cpp.
-
-    This wrapper passes the individual numbers and arrays extracted by the
-    python wrapper to the C++ interface. See add_cti() in cti.py and add_cti()
-    in interface.cpp.
-    """
-    image = check_contiguous(image)
-
-    add_cti(
-        &image[0, 0],
-        image.shape[0],
-        image.shape[1],
-        # ========
-        # Parallel
-        # ========
-        # ROE
-        &parallel_dwell_times[0],
-        len(parallel_dwell_times),
-        parallel_prescan_offset,
-        parallel_overscan_start,
-        parallel_empty_traps_between_columns,
-        parallel_empty_traps_for_first_transfers,
-        parallel_force_release_away_from_readout,
-        parallel_use_integer_express_matrix,
-        parallel_n_pumps,
-        parallel_roe_type,
-        # CCD
-        &parallel_fraction_of_traps_per_phase[0],
-        len(parallel_fraction_of_traps_per_phase),
-        &parallel_full_well_depths[0],
-        &parallel_well_notch_depths[0],
-        &parallel_well_fill_powers[0],
-        &parallel_first_electron_fills[0],
-        # Traps
-        &parallel_trap_densities[0],
-        &parallel_trap_release_timescales[0],
-        &parallel_trap_third_params[0],
-        &parallel_trap_fourth_params[0],
-        parallel_n_traps_ic,
-        parallel_n_traps_sc,
-        parallel_n_traps_ic_co,
-        parallel_n_traps_sc_co,
-        # Misc
-        parallel_express,
-        parallel_window_offset,
-        parallel_window_start,
-        parallel_window_stop,
-        parallel_time_start,
-        parallel_time_stop,
-        &parallel_prune_n_electrons[0], 
-        parallel_prune_frequency,
-        # ========
-        # Serial
-        # ========
-        # ROE
-        &serial_dwell_times[0],
-        len(serial_dwell_times),
-        serial_prescan_offset,
-        serial_overscan_start,
-        serial_empty_traps_between_columns,
-        serial_empty_traps_for_first_transfers,
-        serial_force_release_away_from_readout,
-        serial_use_integer_express_matrix,
-        serial_n_pumps,
-        serial_roe_type,
-        # CCD
-        &serial_fraction_of_traps_per_phase[0],
-        len(serial_fraction_of_traps_per_phase),
-        &serial_full_well_depths[0],
-        &serial_well_notch_depths[0],
-        &serial_well_fill_powers[0],
-        &serial_first_electron_fills[0],
-        # Traps
-        &serial_trap_densities[0],
-        &serial_trap_release_timescales[0],
-        &serial_trap_third_params[0],
-        &serial_trap_fourth_params[0],
-        serial_n_traps_ic,
-        serial_n_traps_sc,
-        serial_n_traps_ic_co,
-        serial_n_traps_sc_co,
-        # Misc
-        serial_express,
-        serial_window_offset,
-        serial_window_start,
-        serial_window_stop,
-        serial_time_start,
-        serial_time_stop,
-        &serial_prune_n_electrons[0], 
-        serial_prune_frequency,
-        # ========
-        # Combined
-        # ========
-        allow_negative_pixels,
-        # Output
-        verbosity,
-        iteration
-    )
-
-    return image
+cimport cython
+
+cimport numpy as np
+import numpy as np
+from libcpp.string cimport string
+
+cdef extern from "read_noise.hpp":
+    void determine_read_noise_model(const double* imageIn, const double* imageOut, const int rows, const int cols, const double readNoiseAmp, const double readNoiseAmpFraction, const int smoothCol, double* output);
+
+def cy_determine_read_noise_model(np.ndarray[np.float64_t, ndim=2] arr1, np.ndarray[np.float64_t, ndim=2] arr2, readNoiseAmp, readNoiseAmpFraction, smoothCol):
+    arr1 = check_contiguous(arr1)
+    arr2 = check_contiguous(arr2)
+    cdef int rows = arr1.shape[0]
+    cdef int cols = arr1.shape[1]
+    cdef np.ndarray[np.float64_t, ndim=2] out = np.zeros((rows, cols), dtype=np.float64)
+    determine_read_noise_model(&arr1[0,0], &arr2[0,0], rows, cols, readNoiseAmp, readNoiseAmpFraction, smoothCol, &out[0,0])
+    return out
+    
+cdef extern from "util.hpp":
+    cdef string version_arctic()
+    void print_version()
+
+cdef extern from "interface.hpp":
+    void print_array(double* array, int length)
+    void print_array_2D(double* array, int n_rows, int n_columns)
+    void add_cti(
+        double* image,
+        int n_rows,
+        int n_columns,
+        # ========
+        # Parallel
+        # ========
+        # ROE
+        double* parallel_dwell_times_in,
+        int parallel_n_steps,
+        int parallel_prescan_offset,
+        int parallel_overscan_start,
+        int parallel_empty_traps_between_columns,
+        int parallel_empty_traps_for_first_transfers,
+        int parallel_force_release_away_from_readout,
+        int parallel_use_integer_express_matrix,
+        int parallel_n_pumps,
+        int parallel_roe_type,
+        # CCD
+        double* parallel_fraction_of_traps_per_phase_in,
+        int parallel_n_phases,
+        double* parallel_full_well_depths,
+        double* parallel_well_notch_depths,
+        double* parallel_well_fill_powers,
+        double* parallel_first_electron_fills,
+        # Traps
+        double* parallel_trap_densities,
+        double* parallel_trap_release_timescales,
+        double* parallel_trap_third_params,
+        double* parallel_trap_fourth_params,
+        int parallel_n_traps_ic,
+        int parallel_n_traps_sc,
+        int parallel_n_traps_ic_co,
+        int parallel_n_traps_sc_co,
+        # Misc
+        int parallel_express,
+        int parallel_window_offset,
+        int parallel_window_start,
+        int parallel_window_stop,
+        int parallel_time_start,
+        int parallel_time_stop,
+        double* parallel_prune_n_electrons, 
+        int parallel_prune_frequency,
+        # ========
+        # Serial
+        # ========
+        # ROE
+        double* serial_dwell_times_in,
+        int serial_n_steps,
+        int serial_prescan_offset,
+        int serial_overscan_start,
+        int serial_empty_traps_between_columns,
+        int serial_empty_traps_for_first_transfers,
+        int serial_force_release_away_from_readout,
+        int serial_use_integer_express_matrix,
+        int serial_n_pumps,
+        int serial_roe_type,
+        # CCD
+        double* serial_fraction_of_traps_per_phase_in,
+        int serial_n_phases,
+        double* serial_full_well_depths,
+        double* serial_well_notch_depths,
+        double* serial_well_fill_powers,
+        double* serial_first_electron_fills,
+        # Traps
+        double* serial_trap_densities,
+        double* serial_trap_release_timescales,
+        double* serial_trap_third_params,
+        double* serial_trap_fourth_params,
+        int serial_n_traps_ic,
+        int serial_n_traps_sc,
+        int serial_n_traps_ic_co,
+        int serial_n_traps_sc_co,
+        # Misc
+        int serial_express,
+        int serial_window_offset,
+        int serial_window_start,
+        int serial_window_stop,
+        int serial_time_start,
+        int serial_time_stop,
+        double* serial_prune_n_electrons, 
+        int serial_prune_frequency,
+        # ========
+        # Combined
+        # ========
+        int allow_negative_pixels,
+        # Output
+        int verbosity,
+        int iteration
+    )
+
+
+def cy_print_version():
+    print_version()
+
+def cy_version_arctic():
+    return version_arctic().decode("utf-8")
+
+def check_contiguous(array):
+    """ Make sure an array is contiguous and C-style. """
+    if not array.flags['C_CONTIGUOUS']:
+        return np.ascontiguousarray(array)
+    else:
+        return array
+
+
+def cy_print_array(np.ndarray[np.double_t, ndim=1] array):
+    array = check_contiguous(array)
+
+    print_array(&array[0], array.shape[0])
+
+
+def cy_print_array_2D(np.ndarray[np.double_t, ndim=2] array):
+    array = check_contiguous(array)
+
+    print_array_2D(&array[0, 0], array.shape[0], array.shape[1])
+
+
+def cy_add_cti(
+    np.ndarray[np.double_t, ndim=2] image,
+    # ========
+    # Parallel
+    # ========
+    # ROE
+    np.ndarray[np.double_t, ndim=1] parallel_dwell_times,
+    int parallel_prescan_offset,
+    int parallel_overscan_start,
+    int parallel_empty_traps_between_columns,
+    int parallel_empty_traps_for_first_transfers,
+    int parallel_force_release_away_from_readout,
+    int parallel_use_integer_express_matrix,
+    int parallel_n_pumps,
+    int parallel_roe_type,
+    # CCD
+    np.ndarray[np.double_t, ndim=1] parallel_fraction_of_traps_per_phase,
+    np.ndarray[np.double_t, ndim=1] parallel_full_well_depths,
+    np.ndarray[np.double_t, ndim=1] parallel_well_notch_depths,
+    np.ndarray[np.double_t, ndim=1] parallel_well_fill_powers,
+    np.ndarray[np.double_t, ndim=1] parallel_first_electron_fills,
+    # Traps
+    np.ndarray[np.double_t, ndim=1] parallel_trap_densities,
+    np.ndarray[np.double_t, ndim=1] parallel_trap_release_timescales,
+    np.ndarray[np.double_t, ndim=1] parallel_trap_third_params,
+    np.ndarray[np.double_t, ndim=1] parallel_trap_fourth_params,
+    int parallel_n_traps_ic,
+    int parallel_n_traps_sc,
+    int parallel_n_traps_ic_co,
+    int parallel_n_traps_sc_co,
+    # Misc
+    int parallel_express,
+    int parallel_window_offset,
+    int parallel_window_start,
+    int parallel_window_stop,
+    int parallel_time_start,
+    int parallel_time_stop,
+    np.ndarray[np.double_t, ndim=1] parallel_prune_n_electrons, 
+    int parallel_prune_frequency,
+    # ========
+    # Serial
+    # ========
+    # ROE
+    np.ndarray[np.double_t, ndim=1] serial_dwell_times,
+    int serial_prescan_offset,
+    int serial_overscan_start,
+    int serial_empty_traps_between_columns,
+    int serial_empty_traps_for_first_transfers,
+    int serial_force_release_away_from_readout,
+    int serial_use_integer_express_matrix,
+    int serial_n_pumps,
+    int serial_roe_type,
+    # CCD
+    np.ndarray[np.double_t, ndim=1] serial_fraction_of_traps_per_phase,
+    np.ndarray[np.double_t, ndim=1] serial_full_well_depths,
+    np.ndarray[np.double_t, ndim=1] serial_well_notch_depths,
+    np.ndarray[np.double_t, ndim=1] serial_well_fill_powers,
+    np.ndarray[np.double_t, ndim=1] serial_first_electron_fills,
+    # Traps
+    np.ndarray[np.double_t, ndim=1] serial_trap_densities,
+    np.ndarray[np.double_t, ndim=1] serial_trap_release_timescales,
+    np.ndarray[np.double_t, ndim=1] serial_trap_third_params,
+    np.ndarray[np.double_t, ndim=1] serial_trap_fourth_params,
+    int serial_n_traps_ic,
+    int serial_n_traps_sc,
+    int serial_n_traps_ic_co,
+    int serial_n_traps_sc_co,
+    # Misc
+    int serial_express,
+    int serial_window_offset,
+    int serial_window_start,
+    int serial_window_stop,
+    int serial_time_start,
+    int serial_time_stop,
+    np.ndarray[np.double_t, ndim=1] serial_prune_n_electrons, 
+    int serial_prune_frequency,
+    # ========
+    # Combined
+    # ========
+    int allow_negative_pixels,
+    # Output
+    int verbosity,
+    int iteration,
+):
+    """
+    Cython wrapper for arctic's add_cti() in src/cti.cpp.
+
+    This wrapper passes the individual numbers and arrays extracted by the
+    python wrapper to the C++ interface. See add_cti() in cti.py and add_cti()
+    in interface.cpp.
+    """
+    image = check_contiguous(image)
+
+    add_cti(
+        &image[0, 0],
+        image.shape[0],
+        image.shape[1],
+        # ========
+        # Parallel
+        # ========
+        # ROE
+        &parallel_dwell_times[0],
+        len(parallel_dwell_times),
+        parallel_prescan_offset,
+        parallel_overscan_start,
+        parallel_empty_traps_between_columns,
+        parallel_empty_traps_for_first_transfers,
+        parallel_force_release_away_from_readout,
+        parallel_use_integer_express_matrix,
+        parallel_n_pumps,
+        parallel_roe_type,
+        # CCD
+        &parallel_fraction_of_traps_per_phase[0],
+        len(parallel_fraction_of_traps_per_phase),
+        &parallel_full_well_depths[0],
+        &parallel_well_notch_depths[0],
+        &parallel_well_fill_powers[0],
+        &parallel_first_electron_fills[0],
+        # Traps
+        &parallel_trap_densities[0],
+        &parallel_trap_release_timescales[0],
+        &parallel_trap_third_params[0],
+        &parallel_trap_fourth_params[0],
+        parallel_n_traps_ic,
+        parallel_n_traps_sc,
+        parallel_n_traps_ic_co,
+        parallel_n_traps_sc_co,
+        # Misc
+        parallel_express,
+        parallel_window_offset,
+        parallel_window_start,
+        parallel_window_stop,
+        parallel_time_start,
+        parallel_time_stop,
+        &parallel_prune_n_electrons[0], 
+        parallel_prune_frequency,
+        # ========
+        # Serial
+        # ========
+        # ROE
+        &serial_dwell_times[0],
+        len(serial_dwell_times),
+        serial_prescan_offset,
+        serial_overscan_start,
+        serial_empty_traps_between_columns,
+        serial_empty_traps_for_first_transfers,
+        serial_force_release_away_from_readout,
+        serial_use_integer_express_matrix,
+        serial_n_pumps,
+        serial_roe_type,
+        # CCD
+        &serial_fraction_of_traps_per_phase[0],
+        len(serial_fraction_of_traps_per_phase),
+        &serial_full_well_depths[0],
+        &serial_well_notch_depths[0],
+        &serial_well_fill_powers[0],
+        &serial_first_electron_fills[0],
+        # Traps
+        &serial_trap_densities[0],
+        &serial_trap_release_timescales[0],
+        &serial_trap_third_params[0],
+        &serial_trap_fourth_params[0],
+        serial_n_traps_ic,
+        serial_n_traps_sc,
+        serial_n_traps_ic_co,
+        serial_n_traps_sc_co,
+        # Misc
+        serial_express,
+        serial_window_offset,
+        serial_window_start,
+        serial_window_stop,
+        serial_time_start,
+        serial_time_stop,
+        &serial_prune_n_electrons[0], 
+        serial_prune_frequency,
+        # ========
+        # Combined
+        # ========
+        allow_negative_pixels,
+        # Output
+        verbosity,
+        iteration
+    )
+
+    return image
diff --git a/src/cti.cpp b/src/cti.cpp
index 53258a8..d1afdfa 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -1,734 +1,734 @@
-
-#include "cti.hpp"
-
-#include <stdio.h>
-#include <sys/time.h>
-
-#include <valarray>
-#include <iostream>
-
-#include "ccd.hpp"
-#include "roe.hpp"
-#include "trap_managers.hpp"
-#include "traps.hpp"
-#include "util.hpp"
-
-/*
-    Add CTI trails to an image by trapping, releasing, and moving electrons
-    along their independent columns.
-
-    See add_cti() for more detail and e.g. parallel vs serial clocking.
-
-    Parameters
-    ----------
-    image_in : std::valarray<std::valarray<double> >
-        The input array of pixel values, assumed to be in units of electrons.
-
-        The first dimension is the "row" index, the second is the "column"
-        index. Charge is transferred "up" from row N to row 0 along each
-        independent column.
-
-    roe : ROE*
-    ccd : CCD*
-    traps_ic : std::valarray<TrapInstantCapture>*
-    traps_sc : std::valarray<TrapSlowCapture>*
-    traps_ic_co : std::valarray<TrapInstantCaptureContinuum>*
-    traps_sc_co : std::valarray<TrapSlowCaptureContinuum>*
-    express : int (opt.)
-    row_offset : int (opt.)
-        See add_cti()'s docstring. Same as the corresponding parallel_*
-        parameters.
-
-    row_start, row_stop : int (opt.)
-        The subset of row pixels to model, to save time when only a specific
-        region of the image is of interest. Defaults to 0, n_rows for the full
-        image.
-
-        For trap pumping, it is currently assumed that only a single pixel is
-        active and contains traps, so row_stop must be row_start + 1. See
-        ROETrapPumping for more detail.
-
-    column_start, column_stop : int (opt.)
-        The subset of column pixels to model, to save time when only a specific
-        region of the image is of interest. Defaults to 0, n_columns for the
-        full image.
-
-    print_inputs : int (opt.)
-        Whether or not to print the model inputs. Defaults to True if
-        verbosity >= 1.
-
-    Returns
-    -------
-    image : std::valarray<std::valarray<double> >
-        The output array of pixel values.
-*/
-std::valarray<std::valarray<double> > clock_charge_in_one_direction(
-    std::valarray<std::valarray<double> >& image_in, ROE* roe, CCD* ccd,
-    std::valarray<TrapInstantCapture>* traps_ic,
-    std::valarray<TrapSlowCapture>* traps_sc,
-    std::valarray<TrapInstantCaptureContinuum>* traps_ic_co,
-    std::valarray<TrapSlowCaptureContinuum>* traps_sc_co, 
-    int express, int row_offset,
-    int row_start, int row_stop, 
-    int column_start, int column_stop, 
-    int time_start, int time_stop, 
-    double prune_n_electrons, int prune_frequency,
-    int allow_negative_pixels, int print_inputs) {
-    
-    // Initialise the output image as a copy of the input image
-    std::valarray<std::valarray<double> > image = image_in;
-
-    // Image shape
-    unsigned int n_rows = image.size();
-    unsigned int n_columns = image[0].size();
-
-    // Defaults
-    if (row_stop == -1) row_stop = n_rows;
-    if (column_stop == -1) column_stop = n_columns;
-
-    // Number of active rows and columns
-    unsigned int n_active_rows = row_stop - row_start;
-    unsigned int n_active_columns = column_stop - column_start;
-    unsigned int max_n_transfers = n_active_rows + row_offset + roe->prescan_offset;
-    print_v(
-        1, "%d column(s) [%d to %d], %d row(s) [%d to %d] \n", n_active_columns,
-        column_start, column_stop, n_active_rows, row_start, row_stop);
-
-    // Checks for non-standard modes
-    if ((roe->type == roe_type_trap_pumping) && (n_active_rows != 1))
-        error(
-            "TrapSlowCapture pumping currently requires the number of active rows (%d) "
-            "to be 1",
-            n_active_rows);
-
-    // Set up the readout electronics and express arrays
-    roe->set_clock_sequence();
-    roe->set_express_matrix_from_rows_and_express(n_rows, express, row_offset);
-    roe->set_store_trap_states_matrix();
-    if (ccd->n_phases != roe->n_phases)
-        error(
-            "Number of CCD phases (%d) and ROE phases (%d) don't match.", ccd->n_phases,
-            roe->n_phases);
-    if (roe->type == roe_type_trap_pumping) {
-        // Account for the repeated transfers of the same pixel
-        max_n_transfers *= roe->n_express_passes;
-    }
-    if (!roe->empty_traps_between_columns) {
-        // Account for the complete set of capture/release events that might
-        // need to be tracked if the traps are never reset
-        max_n_transfers *= n_columns;
-    }
-
-    // Set empty arrays for nullptr trap lists
-    std::valarray<TrapInstantCapture> no_traps_ic = {};
-    if (traps_ic == nullptr) {
-        traps_ic = &no_traps_ic;
-    }
-    std::valarray<TrapSlowCapture> no_traps_sc = {};
-    if (traps_sc == nullptr) {
-        traps_sc = &no_traps_sc;
-    }
-    std::valarray<TrapInstantCaptureContinuum> no_continuum_traps = {};
-    if (traps_ic_co == nullptr) {
-        traps_ic_co = &no_continuum_traps;
-    }
-    std::valarray<TrapSlowCaptureContinuum> no_traps_sc_co = {};
-    if (traps_sc_co == nullptr) {
-        traps_sc_co = &no_traps_sc_co;
-    }
-
-    // Set up the trap managers
-    TrapManagerManager trap_manager_manager(
-        *traps_ic, *traps_sc, *traps_ic_co, *traps_sc_co, max_n_transfers, *ccd,
-        roe->dwell_times);
-
-    unsigned int column_index;
-    unsigned int row_index;
-    unsigned int row_read;
-    unsigned int row_write;
-    double n_free_electrons;
-    double n_electrons_released_and_captured;
-    double express_multiplier;
-    ROEStepPhase* roe_step_phase;
-
-    // Print model inputs
-    //if (print_inputs == -1) print_inputs = verbosity >= 1;
-    if (print_inputs > 0) {
-        print_v(2, "\n");
-        printf("  express = %d \n", express);
-        if (row_offset != 0) printf("  row_offset = %d \n", row_offset);
-
-        printf("  ROE type = %d, n_steps = %d \n", roe->type, roe->n_steps);
-        printf("    dwell_times = ");
-        print_array(roe->dwell_times);
-        printf(
-            "    empty_traps_between_columns = %d \n",
-            roe->empty_traps_between_columns);
-        printf(
-            "    empty_traps_for_first_transfers = %d \n",
-            roe->empty_traps_for_first_transfers);
-        if (roe->n_steps != 1)
-            printf(
-                "    force_release_away_from_readout = %d \n",
-                roe->force_release_away_from_readout);
-        if (roe->use_integer_express_matrix)
-            printf(
-                "    use_integer_express_matrix = %d \n",
-                roe->use_integer_express_matrix);
-        if (roe->type == roe_type_trap_pumping)
-            printf("    n_pumps = %d \n", roe->n_pumps);
-
-        printf("  CCD n_phases = %d \n", ccd->n_phases);
-        if (ccd->n_phases != 1) {
-            printf("    fraction_of_traps_per_phase = ");
-            print_array(ccd->fraction_of_traps_per_phase);
-        }
-        for (int i_phase = 0; i_phase < ccd->n_phases; i_phase++) {
-            printf(
-                "    full_well_depth = %g, well_notch_depth = %g, well_fill_power = %g "
-                "\n",
-                ccd->phases[i_phase].full_well_depth,
-                ccd->phases[i_phase].well_notch_depth,
-                ccd->phases[i_phase].well_fill_power);
-        }
-
-        if (trap_manager_manager.n_traps_ic != 0) {
-            printf(
-                "  Instant-capture traps n = %d \n", trap_manager_manager.n_traps_ic);
-            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_ic; i_trap++) {
-                printf(
-                    "    density = %g, release_timescale = %g \n",
-                    trap_manager_manager.trap_managers_ic[0].traps[i_trap].density,
-                    trap_manager_manager.trap_managers_ic[0]
-                        .traps[i_trap]
-                        .release_timescale);
-                if (trap_manager_manager.trap_managers_ic[0]
-                        .traps[i_trap]
-                        .fractional_volume_full_exposed != 0.0)
-                    printf(
-                        "      fractional_volume_none_exposed = %g, "
-                        "fractional_volume_full_exposed = %g \n",
-                        trap_manager_manager.trap_managers_ic[0]
-                            .traps[i_trap]
-                            .fractional_volume_none_exposed,
-                        trap_manager_manager.trap_managers_ic[0]
-                            .traps[i_trap]
-                            .fractional_volume_full_exposed);
-            }
-        }
-        if (trap_manager_manager.n_traps_sc != 0) {
-            printf("  Slow-capture traps n = %d \n", trap_manager_manager.n_traps_sc);
-            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_sc; i_trap++) {
-                printf(
-                    "    density = %g, release_timescale = %g, capture_timescale = %g "
-                    "\n",
-                    trap_manager_manager.trap_managers_sc[0].traps[i_trap].density,
-                    trap_manager_manager.trap_managers_sc[0]
-                        .traps[i_trap]
-                        .release_timescale,
-                    trap_manager_manager.trap_managers_sc[0]
-                        .traps[i_trap]
-                        .capture_timescale);
-            }
-        }
-        if (trap_manager_manager.n_traps_ic_co != 0) {
-            printf("  Continuum traps n = %d \n", trap_manager_manager.n_traps_ic_co);
-            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_ic_co;
-                 i_trap++) {
-                printf(
-                    "    density = %g, release_timescale = %g, release_timescale_sigma "
-                    "= %g "
-                    "\n",
-                    trap_manager_manager.trap_managers_ic_co[0].traps[i_trap].density,
-                    trap_manager_manager.trap_managers_ic_co[0]
-                        .traps[i_trap]
-                        .release_timescale,
-                    trap_manager_manager.trap_managers_ic_co[0]
-                        .traps[i_trap]
-                        .release_timescale_sigma);
-            }
-        }
-        if (trap_manager_manager.n_traps_sc_co != 0) {
-            printf(
-                "  Slow-capture continuum traps n = %d \n",
-                trap_manager_manager.n_traps_sc_co);
-            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_sc_co;
-                 i_trap++) {
-                printf(
-                    "    density = %g, release_timescale = %g, release_timescale_sigma "
-                    "= %g, "
-                    "capture_timescale = %g \n",
-                    trap_manager_manager.trap_managers_sc_co[0].traps[i_trap].density,
-                    trap_manager_manager.trap_managers_sc_co[0]
-                        .traps[i_trap]
-                        .release_timescale,
-                    trap_manager_manager.trap_managers_sc_co[0]
-                        .traps[i_trap]
-                        .release_timescale_sigma,
-                    trap_manager_manager.trap_managers_sc_co[0]
-                        .traps[i_trap]
-                        .capture_timescale);
-            }
-        }
-        print_v(2, "\n");
-    }
-
-    // Measure wall-clock time taken for the primary loop
-    struct timeval wall_time_start;
-    struct timeval wall_time_end;
-    double wall_time_elapsed;
-    gettimeofday(&wall_time_start, nullptr);
-
-
-
-/*    
-    // Print express matrix
-    print_array_2D(roe->express_matrix, roe->n_express_passes);
-    for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
-        column_index = column_start + i_column;
-        print_v(0, "express_multiplier \n", express_multiplier);
-        for (unsigned int express_index = 0; express_index < roe->n_express_passes;
-             express_index++) {
-            // Each pixel
-            for (unsigned int i_row = 0; i_row < n_active_rows; i_row++) {
-                row_index = row_start + i_row;
-                express_multiplier =
-                    roe->express_matrix[express_index * n_rows + row_index];
-                print_v(0, "%g", express_multiplier);
-
-                if (roe->store_trap_states_matrix[express_index * n_rows + row_index]) {
-                    trap_manager_manager.store_trap_states();
-
-                    print_v(0, "*");
-                }
-            }
-            print_v(0, "\n");
-        }
-    }    
-*/
-
-    // ========
-    // Clock each column of pixels through the column of traps
-    // ========
-    // Print express matrix
-    //print_array_2D(roe->express_matrix, n_active_rows);
-    //print_array_2D((int)roe->store_trap_states_matrix, n_active_rows);
-    // Loop over:
-    //   Columns > Express passes > Rows > Clock-sequence steps > Pixel phases
-    #pragma omp parallel for private(column_index, row_index, row_read, row_write, n_free_electrons, \
-				     n_electrons_released_and_captured, express_multiplier, roe_step_phase) \
-                             firstprivate(trap_manager_manager) \
-                             if(roe->empty_traps_between_columns)
-    for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
-        column_index = column_start + i_column;
-
-        print_v(
-            2, "# # # #  i_column, column_index  %d,  %d \n", i_column, column_index);
-
-        // Monitor the traps for every transfer (express=n_rows), or just one
-        // (express=1) or a few (express=a few) then replicate their effect
-        for (unsigned int express_index = 0; express_index < roe->n_express_passes;
-             express_index++) {
-
-            print_v(2, "# # #  express_index  %d \n", express_index);
-
-            // Restore the trap occupancy levels, either to empty or to a saved
-            // state from a previous express pass
-            trap_manager_manager.restore_trap_states();
-
-            // Each pixel
-            for (unsigned int i_row = 0; i_row < n_active_rows; i_row++) {
-                row_index = row_start + i_row;
-
-                print_v(2, "# #  i_row, row_index  %d,  %d \n", i_row, row_index);
-
-                express_multiplier =
-                    roe->express_matrix[express_index * n_rows + row_index];
-                if (express_multiplier == 0) continue;
-
-                print_v(2, "express_multiplier  %g \n", express_multiplier);
-
-                // Each step in the clock sequence
-                for (unsigned int i_step = 0; i_step < roe->n_steps; i_step++) {
-
-                    // Each phase in the pixel
-                    for (unsigned int i_phase = 0; i_phase < ccd->n_phases; i_phase++) {
-
-                        if ((roe->n_steps > 1) || (ccd->n_phases > 1))
-                            print_v(
-                                2, "#  i_step, i_phase  %d,  %d \n", i_step, i_phase);
-
-                        // State of the ROE in this step and phase of the sequence
-                        roe_step_phase = &roe->clock_sequence[i_step][i_phase];
-
-                        // Get the initial charge from the relevant pixel(s)
-                        n_free_electrons = 0;
-                        for (int i = 0; i < roe_step_phase->n_capture_pixels; i++) {
-                            row_read = row_index +
-                                       roe_step_phase->capture_from_which_pixels[i];
-
-                            // No charge beyond the edge of the image
-                            if (row_read >= n_rows) continue;
-
-                            n_free_electrons += image[row_read][column_index];
-                        }
-
-                        print_v(2, "row_read  %d \n", row_read);
-                        print_v(2, "n_free_electrons  %g \n", n_free_electrons);
- 
-                        // Release and capture electrons with the traps in this
-                        // pixel/phase, for each type of traps
-                        n_electrons_released_and_captured = 0;
-                        if (trap_manager_manager.n_traps_ic > 0)
-                            n_electrons_released_and_captured +=
-                                trap_manager_manager.trap_managers_ic[i_phase]
-                                    .n_electrons_released_and_captured(
-                                        n_free_electrons +
-                                        n_electrons_released_and_captured);
-                        if (trap_manager_manager.n_traps_sc > 0)
-                            n_electrons_released_and_captured +=
-                                trap_manager_manager.trap_managers_sc[i_phase]
-                                    .n_electrons_released_and_captured(
-                                        n_free_electrons +
-                                        n_electrons_released_and_captured);
-                        if (trap_manager_manager.n_traps_ic_co > 0)
-                            n_electrons_released_and_captured +=
-                                trap_manager_manager.trap_managers_ic_co[i_phase]
-                                    .n_electrons_released_and_captured(
-                                        n_free_electrons +
-                                        n_electrons_released_and_captured);
-                        if (trap_manager_manager.n_traps_sc_co > 0)
-                            n_electrons_released_and_captured +=
-                                trap_manager_manager.trap_managers_sc_co[i_phase]
-                                    .n_electrons_released_and_captured(
-                                        n_free_electrons +
-                                        n_electrons_released_and_captured);
-                      
-                        print_v(
-                            2, "n_electrons_released_and_captured  %g \n",
-                            n_electrons_released_and_captured);
-
-                        if (trap_manager_manager.n_traps_ic > 0)
-                            print_v(
-                           2, "n_trapped_electrons_from_watermarks  %g \n",
-                            trap_manager_manager.trap_managers_ic[i_phase].n_trapped_electrons_from_watermarks(trap_manager_manager.trap_managers_ic[i_phase].watermark_volumes,trap_manager_manager.trap_managers_ic[i_phase].watermark_fills));
-
-                        print_v(2, "n_free_electrons  %g \n", n_free_electrons);
-
-
-                        // Return the charge to the relevant pixel(s)
-                        for (int i = 0; i < roe_step_phase->n_release_pixels; i++) {
-                            row_write =
-                                row_index + roe_step_phase->release_to_which_pixels[i];
-
-                            // Charge released beyond the edge leaves the image
-                            if (row_write >= n_rows) continue;
-
-                            image[row_write][column_index] +=
-                                n_electrons_released_and_captured * express_multiplier *
-                                roe_step_phase->release_fraction_to_pixels[i];
-
-                            // Make sure image counts don't go negative, which
-                            // could happen with a too-large express multiplier
-                            if (!allow_negative_pixels) {
-                                if (image[row_write][column_index] < 0.0)
-                                    image[row_write][column_index] = 0.0;
-                            }
-                            
-                            print_v(2, "row_write  %d \n", row_write);
-                            print_v(
-                                2, "image[%d][%d]  %g \n", row_write, column_index,
-                                image[row_write][column_index]);
-                        }
-                    }
-                }
-
-                // Absorb really small watermarks  into others, for speed
-                if (prune_frequency > 0) {
-                    if (((i_row + 1) % prune_frequency) == 0) {
-                        trap_manager_manager.prune_watermarks(prune_n_electrons);
-                    }
-                }
-                
-                // Store the trap states if needed for the next express pass
-                if (roe->store_trap_states_matrix[express_index * n_rows + row_index]) {
-                    print_v(2, "store_trap_states \n");
-                    trap_manager_manager.store_trap_states();
-                }
-            }
-        }
-
-        // Reset the trap states to empty and/or store them for the next column
-        if (roe->empty_traps_between_columns) trap_manager_manager.reset_trap_states();
-        trap_manager_manager.store_trap_states();
-    }
-
-    // Time taken
-    gettimeofday(&wall_time_end, nullptr);
-    wall_time_elapsed = gettimelapsed(wall_time_start, wall_time_end);
-    print_v(1, "Wall-clock time elapsed: %.4g s \n", wall_time_elapsed);
-
-    return image;
-}
-
-/*
-    Add CTI trails to an image by trapping, releasing, and moving electrons
-    along their independent columns, for parallel and/or serial clocking.
-
-    Parameters
-    ----------
-    image_in : std::valarray<std::valarray<double> >
-        The input array of pixel values, assumed to be in units of electrons.
-
-        The first dimension is the "row" index, the second is the "column"
-        index. By default (for parallel clocking), charge is transfered "up"
-        from row N to row 0 along each independent column. i.e. the readout
-        register is above row 0. For serial clocking, the image is rotated
-        before modelling, such that charge moves from column M to column 0.
-
-        e.g.
-        Initial image with one bright pixel in the first three columns:
-            {{  0.0,     0.0,     0.0,     0.0  },
-             {  200.0,   0.0,     0.0,     0.0  },
-             {  0.0,     200.0,   0.0,     0.0  },
-             {  0.0,     0.0,     200.0,   0.0  },
-             {  0.0,     0.0,     0.0,     0.0  },
-             {  0.0,     0.0,     0.0,     0.0  }}
-        Image with parallel CTI trails:
-            {{  0.0,     0.0,     0.0,     0.0  },
-             {  196.0,   0.0,     0.0,     0.0  },
-             {  3.0,     194.1,   0.0,     0.0  },
-             {  2.0,     3.9,     192.1,   0.0  },
-             {  1.3,     2.5,     4.8,     0.0  },
-             {  0.8,     1.5,     2.9,     0.0  }}
-        Final image with parallel and serial CTI trails:
-            {{  0.0,     0.0,     0.0,     0.0  },
-             {  194.1,   1.9,     1.5,     0.9  },
-             {  2.9,     190.3,   2.9,     1.9  },
-             {  1.9,     3.8,     186.5,   3.7  },
-             {  1.2,     2.4,     4.7,     0.1  },
-             {  0.7,     1.4,     2.8,     0.06 }}
-
-    parallel_roe : ROE* (opt.)
-        The object describing the clocking read-out electronics, for parallel
-        clocking. Default nullptr to not do parallel clocking.
-
-    parallel_ccd : CCD* (opt.)
-        The object describing the CCD volume, for parallel clocking.
-
-    parallel_traps_ic : std::valarray<TrapInstantCapture>* (opt.)
-    parallel_traps_sc : std::valarray<TrapSlowCapture>* (opt.)
-    parallel_traps_ic_co : std::valarray<TrapInstantCaptureContinuum>* (opt.)
-    parallel_traps_sc_co : std::valarray<TrapSlowCaptureContinuum>* (opt.)
-        The arrays of trap species objects, one for each type (which can be
-        empty, or nullptr), for parallel clocking.
-
-    parallel_express : int (opt.)
-       The number of times the transfers are computed, determining the
-       balance between accuracy (high values) and speed (low values), for
-       parallel clocking (Massey et al. 2014, section 2.1.5).
-           n_rows  (slower, accurate) Compute every pixel-to-pixel
-                   transfer. The default, 0, is an alias for n_rows.
-           k       Recompute on k occasions the effect of each transfer.
-                   After a few transfers (and e.g. eroded leading edges),
-                   the incremental effect of subsequent transfers can change.
-           1       (faster, approximate) Compute the effect of each
-                   transfer only once.
-
-    parallel_offset : int (>= 0) (opt.)
-        The number of (e.g. prescan) pixels separating the supplied image from
-        the readout register. i.e. Treat the input image as a sub-image that is
-        offset by this number of pixels from readout, increasing the number of
-        pixel-to-pixel transfers. Defaults to 0.
-
-    parallel_window_start, parallel_window_stop : int (opt.)
-        Calculate only the effect on this subset of pixels, to save time when
-        only a specific region of the image is of interest. Defaults to 0,
-        n_rows for the full image.
-
-        Note that, because of edge effects, the range should be started several
-        pixels before the actual region of interest.
-
-    serial_* : * (opt.)
-        The same as the parallel_* objects described above but for serial
-        clocking instead. Default nullptr to not do serial clocking.
-        
-    allow_negative_pixels : bool (opt.)
-        Allows pixel values to go below zero (or the lowest in the input image,
-        whichever is lower). This ensures absence of bias. However, if you know
-        the image must be positive definite, forcing allow_negative_pixels=false
-        will catch numerical errors during CTI addition, and can speed up the
-        iteration during CTI removal.
-
-    iteration : int (opt.)
-        The interation when being called by remove_cti(), default 0 otherwise.
-        Only used to control printing.
-
-    Returns
-    -------
-    image : std::valarray<std::valarray<double> >
-        The output array of pixel values with CTI added.
-*/
-std::valarray<std::valarray<double> > add_cti(
-    std::valarray<std::valarray<double> >& image_in,
-    // Parallel
-    ROE* parallel_roe, CCD* parallel_ccd,
-    std::valarray<TrapInstantCapture>* parallel_traps_ic,
-    std::valarray<TrapSlowCapture>* parallel_traps_sc,
-    std::valarray<TrapInstantCaptureContinuum>* parallel_traps_ic_co,
-    std::valarray<TrapSlowCaptureContinuum>* parallel_traps_sc_co, 
-    int parallel_express, int parallel_offset, 
-    int parallel_window_start, int parallel_window_stop,
-    int parallel_time_start, int parallel_time_stop,
-    double parallel_prune_n_electrons, int parallel_prune_frequency,
-    // Serial
-    ROE* serial_roe, CCD* serial_ccd,
-    std::valarray<TrapInstantCapture>* serial_traps_ic,
-    std::valarray<TrapSlowCapture>* serial_traps_sc,
-    std::valarray<TrapInstantCaptureContinuum>* serial_traps_ic_co,
-    std::valarray<TrapSlowCaptureContinuum>* serial_traps_sc_co, 
-    int serial_express, int serial_offset, 
-    int serial_window_start, int serial_window_stop, 
-    int serial_time_start, int serial_time_stop,
-    double serial_prune_n_electrons, int serial_prune_frequency,
-    // Combined
-    int allow_negative_pixels, 
-    // Output
-    int verbosity, int iteration) {
-    
- 
-    // Print unless being called by remove_cti()
-    if (!iteration) print_version();
-    
-    // Don't print model inputs every iteration
-    int print_inputs = (iteration > 1) ? 0 : verbosity >= 1;
-
-    // Initialise the output image as a copy of the input image
-    std::valarray<std::valarray<double> > image = image_in;
-
-    // Parallel clocking along columns, transfer charge towards row 0
-    if (parallel_traps_ic || parallel_traps_sc || parallel_traps_ic_co ||
-        parallel_traps_sc_co) {
-        print_v(1, "Parallel: ");
-        image = clock_charge_in_one_direction(
-            image, parallel_roe, parallel_ccd, parallel_traps_ic, parallel_traps_sc,
-            parallel_traps_ic_co, parallel_traps_sc_co, 
-            parallel_express, parallel_offset, 
-            parallel_window_start, parallel_window_stop,
-            serial_window_start, serial_window_stop, 
-            parallel_time_start, parallel_time_stop,
-            parallel_prune_n_electrons, parallel_prune_frequency,
-            allow_negative_pixels, print_inputs);
-    }
-
-    // Serial clocking along rows, transfer charge towards column 0
-    if (serial_traps_ic || serial_traps_sc || serial_traps_ic_co || 
-        serial_traps_sc_co) {
-
-        print_v(1, "Serial: ");
-        image = transpose(image);
-        image = clock_charge_in_one_direction(
-            image, serial_roe, serial_ccd, serial_traps_ic, serial_traps_sc,
-            serial_traps_ic_co, serial_traps_sc_co, 
-            serial_express, serial_offset,
-            serial_window_start, serial_window_stop, 
-            parallel_window_start, parallel_window_stop, 
-            serial_time_start, serial_time_stop,
-            serial_prune_n_electrons, serial_prune_frequency,
-            allow_negative_pixels, print_inputs);
-
-        image = transpose(image);
-    }
-
-    return image;
-}
-
-/*
-    Remove CTI trails from an image by first modelling the addition of CTI.
-
-    See add_cti()'s documentation for the forward modelling. This function
-    iteratively models the addition of more CTI trails to the input image to
-    then extract the corrected image without the original trails.
-
-    Parameters
-    ----------
-    All parameters are identical to those of add_cti() as described in its
-    documentation, with the exception of:
-
-    n_iterations : int
-        The number of times CTI-adding clocking is run to perform the correction
-        via forward modelling. More iterations provide better results at the
-        cost of longer runtime. In practice, two or three iterations are often
-        sufficient.
-
-    Returns
-    -------
-    image : std::valarray<std::valarray<double> >
-        The output array of pixel values with CTI removed.
-*/
-std::valarray<std::valarray<double> > remove_cti(
-    std::valarray<std::valarray<double> >& image_in, 
-    int n_iterations,
-    // Parallel
-    ROE* parallel_roe, CCD* parallel_ccd,
-    std::valarray<TrapInstantCapture>* parallel_traps_ic,
-    std::valarray<TrapSlowCapture>* parallel_traps_sc,
-    std::valarray<TrapInstantCaptureContinuum>* parallel_traps_ic_co,
-    std::valarray<TrapSlowCaptureContinuum>* parallel_traps_sc_co, 
-    int parallel_express, int parallel_offset, 
-    int parallel_window_start, int parallel_window_stop,
-    int parallel_time_start, int parallel_time_stop,
-    double parallel_prune_n_electrons, int parallel_prune_frequency,
-    // Serial
-    ROE* serial_roe, CCD* serial_ccd,
-    std::valarray<TrapInstantCapture>* serial_traps_ic,
-    std::valarray<TrapSlowCapture>* serial_traps_sc,
-    std::valarray<TrapInstantCaptureContinuum>* serial_traps_ic_co,
-    std::valarray<TrapSlowCaptureContinuum>* serial_traps_sc_co, 
-    int serial_express, int serial_offset, 
-    int serial_window_start, int serial_window_stop,
-    int serial_time_start, int serial_time_stop,
-    double serial_prune_n_electrons, int serial_prune_frequency,
-    // Combined
-    int allow_negative_pixels) {
-
-    print_version();
-
-    // Initialise the output image as a copy of the input image
-    std::valarray<std::valarray<double> > image_remove_cti = image_in;
-    std::valarray<std::valarray<double> > image_add_cti;
-
-    int n_rows = image_in.size();
-
-    // Estimate the image with removed CTI more accurately each iteration
-    for (int iteration = 1; iteration <= n_iterations; iteration++) {
-        print_v(1, "Iter %d: ", iteration);
-
-        // Model the effect of adding CTI trails
-        image_add_cti = add_cti(
-            image_remove_cti, parallel_roe, parallel_ccd, parallel_traps_ic,
-            parallel_traps_sc, parallel_traps_ic_co, parallel_traps_sc_co,
-            parallel_express, parallel_offset, 
-            parallel_window_start, parallel_window_stop, 
-            parallel_time_start, parallel_time_stop,
-            parallel_prune_n_electrons, parallel_prune_frequency,
-            serial_roe, serial_ccd, serial_traps_ic,
-            serial_traps_sc, serial_traps_ic_co, serial_traps_sc_co, serial_express,
-            serial_offset, serial_window_start, serial_window_stop, 
-            serial_time_start, serial_time_stop, 
-            serial_prune_n_electrons, serial_prune_frequency,
-            allow_negative_pixels, 0, iteration);
-
-        // Improve the estimate of the image with CTI trails removed
-        image_remove_cti += image_in - image_add_cti;
-
-        // Prevent negative image values
-        if (!allow_negative_pixels) {
-            for (int row_index = 0; row_index < n_rows; row_index++) {
-                image_remove_cti[row_index][image_remove_cti[row_index] < 0.0] = 0.0;
-            }
-        }
-    }
-
-    return image_remove_cti;
-}
+
+#include "cti.hpp"
+
+#include <stdio.h>
+#include <sys/time.h>
+
+#include <valarray>
+#include <iostream>
+
+#include "ccd.hpp"
+#include "roe.hpp"
+#include "trap_managers.hpp"
+#include "traps.hpp"
+#include "util.hpp"
+
+/*
+    Add CTI trails to an image by trapping, releasing, and moving electrons
+    along their independent columns.
+
+    See add_cti() for more detail and e.g. parallel vs serial clocking.
+
+    Parameters
+    ----------
+    image_in : std::valarray<std::valarray<double> >
+        The input array of pixel values, assumed to be in units of electrons.
+
+        The first dimension is the "row" index, the second is the "column"
+        index. Charge is transferred "up" from row N to row 0 along each
+        independent column.
+
+    roe : ROE*
+    ccd : CCD*
+    traps_ic : std::valarray<TrapInstantCapture>*
+    traps_sc : std::valarray<TrapSlowCapture>*
+    traps_ic_co : std::valarray<TrapInstantCaptureContinuum>*
+    traps_sc_co : std::valarray<TrapSlowCaptureContinuum>*
+    express : int (opt.)
+    row_offset : int (opt.)
+        See add_cti()'s docstring. Same as the corresponding parallel_*
+        parameters.
+
+    row_start, row_stop : int (opt.)
+        The subset of row pixels to model, to save time when only a specific
+        region of the image is of interest. Defaults to 0, n_rows for the full
+        image.
+
+        For trap pumping, it is currently assumed that only a single pixel is
+        active and contains traps, so row_stop must be row_start + 1. See
+        ROETrapPumping for more detail.
+
+    column_start, column_stop : int (opt.)
+        The subset of column pixels to model, to save time when only a specific
+        region of the image is of interest. Defaults to 0, n_columns for the
+        full image.
+
+    print_inputs : int (opt.)
+        Whether or not to print the model inputs. Defaults to True if
+        verbosity >= 1.
+
+    Returns
+    -------
+    image : std::valarray<std::valarray<double> >
+        The output array of pixel values.
+*/
+std::valarray<std::valarray<double> > clock_charge_in_one_direction(
+    std::valarray<std::valarray<double> >& image_in, ROE* roe, CCD* ccd,
+    std::valarray<TrapInstantCapture>* traps_ic,
+    std::valarray<TrapSlowCapture>* traps_sc,
+    std::valarray<TrapInstantCaptureContinuum>* traps_ic_co,
+    std::valarray<TrapSlowCaptureContinuum>* traps_sc_co, 
+    int express, int row_offset,
+    int row_start, int row_stop, 
+    int column_start, int column_stop, 
+    int time_start, int time_stop, 
+    double prune_n_electrons, int prune_frequency,
+    int allow_negative_pixels, int print_inputs) {
+    
+    // Initialise the output image as a copy of the input image
+    std::valarray<std::valarray<double> > image = image_in;
+
+    // Image shape
+    unsigned int n_rows = image.size();
+    unsigned int n_columns = image[0].size();
+
+    // Defaults
+    if (row_stop == -1) row_stop = n_rows;
+    if (column_stop == -1) column_stop = n_columns;
+
+    // Number of active rows and columns
+    unsigned int n_active_rows = row_stop - row_start;
+    unsigned int n_active_columns = column_stop - column_start;
+    unsigned int max_n_transfers = n_active_rows + row_offset + roe->prescan_offset;
+    print_v(
+        1, "%d column(s) [%d to %d], %d row(s) [%d to %d] \n", n_active_columns,
+        column_start, column_stop, n_active_rows, row_start, row_stop);
+
+    // Checks for non-standard modes
+    if ((roe->type == roe_type_trap_pumping) && (n_active_rows != 1))
+        error(
+            "TrapSlowCapture pumping currently requires the number of active rows (%d) "
+            "to be 1",
+            n_active_rows);
+
+    // Set up the readout electronics and express arrays
+    roe->set_clock_sequence();
+    roe->set_express_matrix_from_rows_and_express(n_rows, express, row_offset);
+    roe->set_store_trap_states_matrix();
+    if (ccd->n_phases != roe->n_phases)
+        error(
+            "Number of CCD phases (%d) and ROE phases (%d) don't match.", ccd->n_phases,
+            roe->n_phases);
+    if (roe->type == roe_type_trap_pumping) {
+        // Account for the repeated transfers of the same pixel
+        max_n_transfers *= roe->n_express_passes;
+    }
+    if (!roe->empty_traps_between_columns) {
+        // Account for the complete set of capture/release events that might
+        // need to be tracked if the traps are never reset
+        max_n_transfers *= n_columns;
+    }
+
+    // Set empty arrays for nullptr trap lists
+    std::valarray<TrapInstantCapture> no_traps_ic = {};
+    if (traps_ic == nullptr) {
+        traps_ic = &no_traps_ic;
+    }
+    std::valarray<TrapSlowCapture> no_traps_sc = {};
+    if (traps_sc == nullptr) {
+        traps_sc = &no_traps_sc;
+    }
+    std::valarray<TrapInstantCaptureContinuum> no_continuum_traps = {};
+    if (traps_ic_co == nullptr) {
+        traps_ic_co = &no_continuum_traps;
+    }
+    std::valarray<TrapSlowCaptureContinuum> no_traps_sc_co = {};
+    if (traps_sc_co == nullptr) {
+        traps_sc_co = &no_traps_sc_co;
+    }
+
+    // Set up the trap managers
+    TrapManagerManager trap_manager_manager(
+        *traps_ic, *traps_sc, *traps_ic_co, *traps_sc_co, max_n_transfers, *ccd,
+        roe->dwell_times);
+
+    unsigned int column_index;
+    unsigned int row_index;
+    unsigned int row_read;
+    unsigned int row_write;
+    double n_free_electrons;
+    double n_electrons_released_and_captured;
+    double express_multiplier;
+    ROEStepPhase* roe_step_phase;
+
+    // Print model inputs
+    //if (print_inputs == -1) print_inputs = verbosity >= 1;
+    if (print_inputs > 0) {
+        print_v(2, "\n");
+        printf("  express = %d \n", express);
+        if (row_offset != 0) printf("  row_offset = %d \n", row_offset);
+
+        printf("  ROE type = %d, n_steps = %d \n", roe->type, roe->n_steps);
+        printf("    dwell_times = ");
+        print_array(roe->dwell_times);
+        printf(
+            "    empty_traps_between_columns = %d \n",
+            roe->empty_traps_between_columns);
+        printf(
+            "    empty_traps_for_first_transfers = %d \n",
+            roe->empty_traps_for_first_transfers);
+        if (roe->n_steps != 1)
+            printf(
+                "    force_release_away_from_readout = %d \n",
+                roe->force_release_away_from_readout);
+        if (roe->use_integer_express_matrix)
+            printf(
+                "    use_integer_express_matrix = %d \n",
+                roe->use_integer_express_matrix);
+        if (roe->type == roe_type_trap_pumping)
+            printf("    n_pumps = %d \n", roe->n_pumps);
+
+        printf("  CCD n_phases = %d \n", ccd->n_phases);
+        if (ccd->n_phases != 1) {
+            printf("    fraction_of_traps_per_phase = ");
+            print_array(ccd->fraction_of_traps_per_phase);
+        }
+        for (int i_phase = 0; i_phase < ccd->n_phases; i_phase++) {
+            printf(
+                "    full_well_depth = %g, well_notch_depth = %g, well_fill_power = %g "
+                "\n",
+                ccd->phases[i_phase].full_well_depth,
+                ccd->phases[i_phase].well_notch_depth,
+                ccd->phases[i_phase].well_fill_power);
+        }
+
+        if (trap_manager_manager.n_traps_ic != 0) {
+            printf(
+                "  Instant-capture traps n = %d \n", trap_manager_manager.n_traps_ic);
+            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_ic; i_trap++) {
+                printf(
+                    "    density = %g, release_timescale = %g \n",
+                    trap_manager_manager.trap_managers_ic[0].traps[i_trap].density,
+                    trap_manager_manager.trap_managers_ic[0]
+                        .traps[i_trap]
+                        .release_timescale);
+                if (trap_manager_manager.trap_managers_ic[0]
+                        .traps[i_trap]
+                        .fractional_volume_full_exposed != 0.0)
+                    printf(
+                        "      fractional_volume_none_exposed = %g, "
+                        "fractional_volume_full_exposed = %g \n",
+                        trap_manager_manager.trap_managers_ic[0]
+                            .traps[i_trap]
+                            .fractional_volume_none_exposed,
+                        trap_manager_manager.trap_managers_ic[0]
+                            .traps[i_trap]
+                            .fractional_volume_full_exposed);
+            }
+        }
+        if (trap_manager_manager.n_traps_sc != 0) {
+            printf("  Slow-capture traps n = %d \n", trap_manager_manager.n_traps_sc);
+            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_sc; i_trap++) {
+                printf(
+                    "    density = %g, release_timescale = %g, capture_timescale = %g "
+                    "\n",
+                    trap_manager_manager.trap_managers_sc[0].traps[i_trap].density,
+                    trap_manager_manager.trap_managers_sc[0]
+                        .traps[i_trap]
+                        .release_timescale,
+                    trap_manager_manager.trap_managers_sc[0]
+                        .traps[i_trap]
+                        .capture_timescale);
+            }
+        }
+        if (trap_manager_manager.n_traps_ic_co != 0) {
+            printf("  Continuum traps n = %d \n", trap_manager_manager.n_traps_ic_co);
+            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_ic_co;
+                 i_trap++) {
+                printf(
+                    "    density = %g, release_timescale = %g, release_timescale_sigma "
+                    "= %g "
+                    "\n",
+                    trap_manager_manager.trap_managers_ic_co[0].traps[i_trap].density,
+                    trap_manager_manager.trap_managers_ic_co[0]
+                        .traps[i_trap]
+                        .release_timescale,
+                    trap_manager_manager.trap_managers_ic_co[0]
+                        .traps[i_trap]
+                        .release_timescale_sigma);
+            }
+        }
+        if (trap_manager_manager.n_traps_sc_co != 0) {
+            printf(
+                "  Slow-capture continuum traps n = %d \n",
+                trap_manager_manager.n_traps_sc_co);
+            for (int i_trap = 0; i_trap < trap_manager_manager.n_traps_sc_co;
+                 i_trap++) {
+                printf(
+                    "    density = %g, release_timescale = %g, release_timescale_sigma "
+                    "= %g, "
+                    "capture_timescale = %g \n",
+                    trap_manager_manager.trap_managers_sc_co[0].traps[i_trap].density,
+                    trap_manager_manager.trap_managers_sc_co[0]
+                        .traps[i_trap]
+                        .release_timescale,
+                    trap_manager_manager.trap_managers_sc_co[0]
+                        .traps[i_trap]
+                        .release_timescale_sigma,
+                    trap_manager_manager.trap_managers_sc_co[0]
+                        .traps[i_trap]
+                        .capture_timescale);
+            }
+        }
+        print_v(2, "\n");
+    }
+
+    // Measure wall-clock time taken for the primary loop
+    struct timeval wall_time_start;
+    struct timeval wall_time_end;
+    double wall_time_elapsed;
+    gettimeofday(&wall_time_start, nullptr);
+
+
+
+/*    
+    // Print express matrix
+    print_array_2D(roe->express_matrix, roe->n_express_passes);
+    for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
+        column_index = column_start + i_column;
+        print_v(0, "express_multiplier \n", express_multiplier);
+        for (unsigned int express_index = 0; express_index < roe->n_express_passes;
+             express_index++) {
+            // Each pixel
+            for (unsigned int i_row = 0; i_row < n_active_rows; i_row++) {
+                row_index = row_start + i_row;
+                express_multiplier =
+                    roe->express_matrix[express_index * n_rows + row_index];
+                print_v(0, "%g", express_multiplier);
+
+                if (roe->store_trap_states_matrix[express_index * n_rows + row_index]) {
+                    trap_manager_manager.store_trap_states();
+
+                    print_v(0, "*");
+                }
+            }
+            print_v(0, "\n");
+        }
+    }    
+*/
+
+    // ========
+    // Clock each column of pixels through the column of traps
+    // ========
+    // Print express matrix
+    //print_array_2D(roe->express_matrix, n_active_rows);
+    //print_array_2D((int)roe->store_trap_states_matrix, n_active_rows);
+    // Loop over:
+    //   Columns > Express passes > Rows > Clock-sequence steps > Pixel phases
+    #pragma omp parallel for private(column_index, row_index, row_read, row_write, n_free_electrons, \
+				     n_electrons_released_and_captured, express_multiplier, roe_step_phase) \
+                             firstprivate(trap_manager_manager) \
+                             if(roe->empty_traps_between_columns)
+    for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
+        column_index = column_start + i_column;
+
+        print_v(
+            2, "# # # #  i_column, column_index  %d,  %d \n", i_column, column_index);
+
+        // Monitor the traps for every transfer (express=n_rows), or just one
+        // (express=1) or a few (express=a few) then replicate their effect
+        for (unsigned int express_index = 0; express_index < roe->n_express_passes;
+             express_index++) {
+
+            print_v(2, "# # #  express_index  %d \n", express_index);
+
+            // Restore the trap occupancy levels, either to empty or to a saved
+            // state from a previous express pass
+            trap_manager_manager.restore_trap_states();
+
+            // Each pixel
+            for (unsigned int i_row = 0; i_row < n_active_rows; i_row++) {
+                row_index = row_start + i_row;
+
+                print_v(2, "# #  i_row, row_index  %d,  %d \n", i_row, row_index);
+
+                express_multiplier =
+                    roe->express_matrix[express_index * n_rows + row_index];
+                if (express_multiplier == 0) continue;
+
+                print_v(2, "express_multiplier  %g \n", express_multiplier);
+
+                // Each step in the clock sequence
+                for (unsigned int i_step = 0; i_step < roe->n_steps; i_step++) {
+
+                    // Each phase in the pixel
+                    for (unsigned int i_phase = 0; i_phase < ccd->n_phases; i_phase++) {
+
+                        if ((roe->n_steps > 1) || (ccd->n_phases > 1))
+                            print_v(
+                                2, "#  i_step, i_phase  %d,  %d \n", i_step, i_phase);
+
+                        // State of the ROE in this step and phase of the sequence
+                        roe_step_phase = &roe->clock_sequence[i_step][i_phase];
+
+                        // Get the initial charge from the relevant pixel(s)
+                        n_free_electrons = 0;
+                        for (int i = 0; i < roe_step_phase->n_capture_pixels; i++) {
+                            row_read = row_index +
+                                       roe_step_phase->capture_from_which_pixels[i];
+
+                            // No charge beyond the edge of the image
+                            if (row_read >= n_rows) continue;
+
+                            n_free_electrons += image[row_read][column_index];
+                        }
+
+                        print_v(2, "row_read  %d \n", row_read);
+                        print_v(2, "n_free_electrons  %g \n", n_free_electrons);
+ 
+                        // Release and capture electrons with the traps in this
+                        // pixel/phase, for each type of traps
+                        n_electrons_released_and_captured = 0;
+                        if (trap_manager_manager.n_traps_ic > 0)
+                            n_electrons_released_and_captured +=
+                                trap_manager_manager.trap_managers_ic[i_phase]
+                                    .n_electrons_released_and_captured(
+                                        n_free_electrons +
+                                        n_electrons_released_and_captured);
+                        if (trap_manager_manager.n_traps_sc > 0)
+                            n_electrons_released_and_captured +=
+                                trap_manager_manager.trap_managers_sc[i_phase]
+                                    .n_electrons_released_and_captured(
+                                        n_free_electrons +
+                                        n_electrons_released_and_captured);
+                        if (trap_manager_manager.n_traps_ic_co > 0)
+                            n_electrons_released_and_captured +=
+                                trap_manager_manager.trap_managers_ic_co[i_phase]
+                                    .n_electrons_released_and_captured(
+                                        n_free_electrons +
+                                        n_electrons_released_and_captured);
+                        if (trap_manager_manager.n_traps_sc_co > 0)
+                            n_electrons_released_and_captured +=
+                                trap_manager_manager.trap_managers_sc_co[i_phase]
+                                    .n_electrons_released_and_captured(
+                                        n_free_electrons +
+                                        n_electrons_released_and_captured);
+                      
+                        print_v(
+                            2, "n_electrons_released_and_captured  %g \n",
+                            n_electrons_released_and_captured);
+
+                        if (trap_manager_manager.n_traps_ic > 0)
+                            print_v(
+                           2, "n_trapped_electrons_from_watermarks  %g \n",
+                            trap_manager_manager.trap_managers_ic[i_phase].n_trapped_electrons_from_watermarks(trap_manager_manager.trap_managers_ic[i_phase].watermark_volumes,trap_manager_manager.trap_managers_ic[i_phase].watermark_fills));
+
+                        print_v(2, "n_free_electrons  %g \n", n_free_electrons);
+
+
+                        // Return the charge to the relevant pixel(s)
+                        for (int i = 0; i < roe_step_phase->n_release_pixels; i++) {
+                            row_write =
+                                row_index + roe_step_phase->release_to_which_pixels[i];
+
+                            // Charge released beyond the edge leaves the image
+                            if (row_write >= n_rows) continue;
+
+                            image[row_write][column_index] +=
+                                n_electrons_released_and_captured * express_multiplier *
+                                roe_step_phase->release_fraction_to_pixels[i];
+
+                            // Make sure image counts don't go negative, which
+                            // could happen with a too-large express multiplier
+                            if (!allow_negative_pixels) {
+                                if (image[row_write][column_index] < 0.0)
+                                    image[row_write][column_index] = 0.0;
+                            }
+                            
+                            print_v(2, "row_write  %d \n", row_write);
+                            print_v(
+                                2, "image[%d][%d]  %g \n", row_write, column_index,
+                                image[row_write][column_index]);
+                        }
+                    }
+                }
+
+                // Absorb really small watermarks  into others, for speed
+                if (prune_frequency > 0) {
+                    if (((i_row + 1) % prune_frequency) == 0) {
+                        trap_manager_manager.prune_watermarks(prune_n_electrons);
+                    }
+                }
+                
+                // Store the trap states if needed for the next express pass
+                if (roe->store_trap_states_matrix[express_index * n_rows + row_index]) {
+                    print_v(2, "store_trap_states \n");
+                    trap_manager_manager.store_trap_states();
+                }
+            }
+        }
+
+        // Reset the trap states to empty and/or store them for the next column
+        if (roe->empty_traps_between_columns) trap_manager_manager.reset_trap_states();
+        trap_manager_manager.store_trap_states();
+    }
+
+    // Time taken
+    gettimeofday(&wall_time_end, nullptr);
+    wall_time_elapsed = gettimelapsed(wall_time_start, wall_time_end);
+    print_v(1, "Wall-clock time elapsed: %.4g s \n", wall_time_elapsed);
+
+    return image;
+}
+
+/*
+    Add CTI trails to an image by trapping, releasing, and moving electrons
+    along their independent columns, for parallel and/or serial clocking.
+
+    Parameters
+    ----------
+    image_in : std::valarray<std::valarray<double> >
+        The input array of pixel values, assumed to be in units of electrons.
+
+        The first dimension is the "row" index, the second is the "column"
+        index. By default (for parallel clocking), charge is transfered "up"
+        from row N to row 0 along each independent column. i.e. the readout
+        register is above row 0. For serial clocking, the image is rotated
+        before modelling, such that charge moves from column M to column 0.
+
+        e.g.
+        Initial image with one bright pixel in the first three columns:
+            {{  0.0,     0.0,     0.0,     0.0  },
+             {  200.0,   0.0,     0.0,     0.0  },
+             {  0.0,     200.0,   0.0,     0.0  },
+             {  0.0,     0.0,     200.0,   0.0  },
+             {  0.0,     0.0,     0.0,     0.0  },
+             {  0.0,     0.0,     0.0,     0.0  }}
+        Image with parallel CTI trails:
+            {{  0.0,     0.0,     0.0,     0.0  },
+             {  196.0,   0.0,     0.0,     0.0  },
+             {  3.0,     194.1,   0.0,     0.0  },
+             {  2.0,     3.9,     192.1,   0.0  },
+             {  1.3,     2.5,     4.8,     0.0  },
+             {  0.8,     1.5,     2.9,     0.0  }}
+        Final image with parallel and serial CTI trails:
+            {{  0.0,     0.0,     0.0,     0.0  },
+             {  194.1,   1.9,     1.5,     0.9  },
+             {  2.9,     190.3,   2.9,     1.9  },
+             {  1.9,     3.8,     186.5,   3.7  },
+             {  1.2,     2.4,     4.7,     0.1  },
+             {  0.7,     1.4,     2.8,     0.06 }}
+
+    parallel_roe : ROE* (opt.)
+        The object describing the clocking read-out electronics, for parallel
+        clocking. Default nullptr to not do parallel clocking.
+
+    parallel_ccd : CCD* (opt.)
+        The object describing the CCD volume, for parallel clocking.
+
+    parallel_traps_ic : std::valarray<TrapInstantCapture>* (opt.)
+    parallel_traps_sc : std::valarray<TrapSlowCapture>* (opt.)
+    parallel_traps_ic_co : std::valarray<TrapInstantCaptureContinuum>* (opt.)
+    parallel_traps_sc_co : std::valarray<TrapSlowCaptureContinuum>* (opt.)
+        The arrays of trap species objects, one for each type (which can be
+        empty, or nullptr), for parallel clocking.
+
+    parallel_express : int (opt.)
+       The number of times the transfers are computed, determining the
+       balance between accuracy (high values) and speed (low values), for
+       parallel clocking (Massey et al. 2014, section 2.1.5).
+           n_rows  (slower, accurate) Compute every pixel-to-pixel
+                   transfer. The default, 0, is an alias for n_rows.
+           k       Recompute on k occasions the effect of each transfer.
+                   After a few transfers (and e.g. eroded leading edges),
+                   the incremental effect of subsequent transfers can change.
+           1       (faster, approximate) Compute the effect of each
+                   transfer only once.
+
+    parallel_offset : int (>= 0) (opt.)
+        The number of (e.g. prescan) pixels separating the supplied image from
+        the readout register. i.e. Treat the input image as a sub-image that is
+        offset by this number of pixels from readout, increasing the number of
+        pixel-to-pixel transfers. Defaults to 0.
+
+    parallel_window_start, parallel_window_stop : int (opt.)
+        Calculate only the effect on this subset of pixels, to save time when
+        only a specific region of the image is of interest. Defaults to 0,
+        n_rows for the full image.
+
+        Note that, because of edge effects, the range should be started several
+        pixels before the actual region of interest.
+
+    serial_* : * (opt.)
+        The same as the parallel_* objects described above but for serial
+        clocking instead. Default nullptr to not do serial clocking.
+        
+    allow_negative_pixels : bool (opt.)
+        Allows pixel values to go below zero (or the lowest in the input image,
+        whichever is lower). This ensures absence of bias. However, if you know
+        the image must be positive definite, forcing allow_negative_pixels=false
+        will catch numerical errors during CTI addition, and can speed up the
+        iteration during CTI removal.
+
+    iteration : int (opt.)
+        The interation when being called by remove_cti(), default 0 otherwise.
+        Only used to control printing.
+
+    Returns
+    -------
+    image : std::valarray<std::valarray<double> >
+        The output array of pixel values with CTI added.
+*/
+std::valarray<std::valarray<double> > add_cti(
+    std::valarray<std::valarray<double> >& image_in,
+    // Parallel
+    ROE* parallel_roe, CCD* parallel_ccd,
+    std::valarray<TrapInstantCapture>* parallel_traps_ic,
+    std::valarray<TrapSlowCapture>* parallel_traps_sc,
+    std::valarray<TrapInstantCaptureContinuum>* parallel_traps_ic_co,
+    std::valarray<TrapSlowCaptureContinuum>* parallel_traps_sc_co, 
+    int parallel_express, int parallel_offset, 
+    int parallel_window_start, int parallel_window_stop,
+    int parallel_time_start, int parallel_time_stop,
+    double parallel_prune_n_electrons, int parallel_prune_frequency,
+    // Serial
+    ROE* serial_roe, CCD* serial_ccd,
+    std::valarray<TrapInstantCapture>* serial_traps_ic,
+    std::valarray<TrapSlowCapture>* serial_traps_sc,
+    std::valarray<TrapInstantCaptureContinuum>* serial_traps_ic_co,
+    std::valarray<TrapSlowCaptureContinuum>* serial_traps_sc_co, 
+    int serial_express, int serial_offset, 
+    int serial_window_start, int serial_window_stop, 
+    int serial_time_start, int serial_time_stop,
+    double serial_prune_n_electrons, int serial_prune_frequency,
+    // Combined
+    int allow_negative_pixels, 
+    // Output
+    int verbosity, int iteration) {
+    
+ 
+    // Print unless being called by remove_cti()
+    if (!iteration) print_version();
+    
+    // Don't print model inputs every iteration
+    int print_inputs = (iteration > 1) ? 0 : verbosity >= 1;
+
+    // Initialise the output image as a copy of the input image
+    std::valarray<std::valarray<double> > image = image_in;
+
+    // Parallel clocking along columns, transfer charge towards row 0
+    if (parallel_traps_ic || parallel_traps_sc || parallel_traps_ic_co ||
+        parallel_traps_sc_co) {
+        print_v(1, "Parallel: ");
+        image = clock_charge_in_one_direction(
+            image, parallel_roe, parallel_ccd, parallel_traps_ic, parallel_traps_sc,
+            parallel_traps_ic_co, parallel_traps_sc_co, 
+            parallel_express, parallel_offset, 
+            parallel_window_start, parallel_window_stop,
+            serial_window_start, serial_window_stop, 
+            parallel_time_start, parallel_time_stop,
+            parallel_prune_n_electrons, parallel_prune_frequency,
+            allow_negative_pixels, print_inputs);
+    }
+
+    // Serial clocking along rows, transfer charge towards column 0
+    if (serial_traps_ic || serial_traps_sc || serial_traps_ic_co || 
+        serial_traps_sc_co) {
+
+        print_v(1, "Serial: ");
+        image = transpose(image);
+        image = clock_charge_in_one_direction(
+            image, serial_roe, serial_ccd, serial_traps_ic, serial_traps_sc,
+            serial_traps_ic_co, serial_traps_sc_co, 
+            serial_express, serial_offset,
+            serial_window_start, serial_window_stop, 
+            parallel_window_start, parallel_window_stop, 
+            serial_time_start, serial_time_stop,
+            serial_prune_n_electrons, serial_prune_frequency,
+            allow_negative_pixels, print_inputs);
+
+        image = transpose(image);
+    }
+
+    return image;
+}
+
+/*
+    Remove CTI trails from an image by first modelling the addition of CTI.
+
+    See add_cti()'s documentation for the forward modelling. This function
+    iteratively models the addition of more CTI trails to the input image to
+    then extract the corrected image without the original trails.
+
+    Parameters
+    ----------
+    All parameters are identical to those of add_cti() as described in its
+    documentation, with the exception of:
+
+    n_iterations : int
+        The number of times CTI-adding clocking is run to perform the correction
+        via forward modelling. More iterations provide better results at the
+        cost of longer runtime. In practice, two or three iterations are often
+        sufficient.
+
+    Returns
+    -------
+    image : std::valarray<std::valarray<double> >
+        The output array of pixel values with CTI removed.
+*/
+std::valarray<std::valarray<double> > remove_cti(
+    std::valarray<std::valarray<double> >& image_in, 
+    int n_iterations,
+    // Parallel
+    ROE* parallel_roe, CCD* parallel_ccd,
+    std::valarray<TrapInstantCapture>* parallel_traps_ic,
+    std::valarray<TrapSlowCapture>* parallel_traps_sc,
+    std::valarray<TrapInstantCaptureContinuum>* parallel_traps_ic_co,
+    std::valarray<TrapSlowCaptureContinuum>* parallel_traps_sc_co, 
+    int parallel_express, int parallel_offset, 
+    int parallel_window_start, int parallel_window_stop,
+    int parallel_time_start, int parallel_time_stop,
+    double parallel_prune_n_electrons, int parallel_prune_frequency,
+    // Serial
+    ROE* serial_roe, CCD* serial_ccd,
+    std::valarray<TrapInstantCapture>* serial_traps_ic,
+    std::valarray<TrapSlowCapture>* serial_traps_sc,
+    std::valarray<TrapInstantCaptureContinuum>* serial_traps_ic_co,
+    std::valarray<TrapSlowCaptureContinuum>* serial_traps_sc_co, 
+    int serial_express, int serial_offset, 
+    int serial_window_start, int serial_window_stop,
+    int serial_time_start, int serial_time_stop,
+    double serial_prune_n_electrons, int serial_prune_frequency,
+    // Combined
+    int allow_negative_pixels) {
+
+    print_version();
+
+    // Initialise the output image as a copy of the input image
+    std::valarray<std::valarray<double> > image_remove_cti = image_in;
+    std::valarray<std::valarray<double> > image_add_cti;
+
+    int n_rows = image_in.size();
+
+    // Estimate the image with removed CTI more accurately each iteration
+    for (int iteration = 1; iteration <= n_iterations; iteration++) {
+        print_v(1, "Iter %d: ", iteration);
+
+        // Model the effect of adding CTI trails
+        image_add_cti = add_cti(
+            image_remove_cti, parallel_roe, parallel_ccd, parallel_traps_ic,
+            parallel_traps_sc, parallel_traps_ic_co, parallel_traps_sc_co,
+            parallel_express, parallel_offset, 
+            parallel_window_start, parallel_window_stop, 
+            parallel_time_start, parallel_time_stop,
+            parallel_prune_n_electrons, parallel_prune_frequency,
+            serial_roe, serial_ccd, serial_traps_ic,
+            serial_traps_sc, serial_traps_ic_co, serial_traps_sc_co, serial_express,
+            serial_offset, serial_window_start, serial_window_stop, 
+            serial_time_start, serial_time_stop, 
+            serial_prune_n_electrons, serial_prune_frequency,
+            allow_negative_pixels, 0, iteration);
+
+        // Improve the estimate of the image with CTI trails removed
+        image_remove_cti += image_in - image_add_cti;
+
+        // Prevent negative image values
+        if (!allow_negative_pixels) {
+            for (int row_index = 0; row_index < n_rows; row_index++) {
+                image_remove_cti[row_index][image_remove_cti[row_index] < 0.0] = 0.0;
+            }
+        }
+    }
+
+    return image_remove_cti;
+}
diff --git a/src/roe.cpp b/src/roe.cpp
index 1741c14..5ce89f6 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -1,928 +1,928 @@
-
-#include "roe.hpp"
-
-#include <math.h>
-#include <stdio.h>
-
-#include <valarray>
-
-#include <iostream>
-#include "util.hpp"
-
-// ========
-// ROEStepPhase::
-// ========
-/*
-    Class ROEStepPhase.
-
-    Information about the readout electronics at one step in a clocking sequence
-    at one phase in the pixel. Used to determine the pixels and phases in
-    which electrons can be held, captured from, and released to, at this point
-    in the sequence.
-
-    Parameters
-    ----------
-    is_high : bool
-        Whether or not the potential is currently held "high", i.e. able to
-        contain free electrons.
-
-    capture_from_which_pixels : std::valarray<int>
-        The relative row number of the pixel to capture from.
-
-    release_to_which_pixels : std::valarray<int>
-        The relative row number of the pixel to release to.
-
-    release_fraction_to_pixels : std::valarray<double>
-        The fraction of the electrons to be released into this pixel.
-
-    Attributes
-    ----------
-    n_capture_pixels, n_release_pixels : int
-        The lengths of the *_which_pixels arrays.
-*/
-ROEStepPhase::ROEStepPhase(
-    bool is_high, std::valarray<int> capture_from_which_pixels,
-    std::valarray<int> release_to_which_pixels,
-    std::valarray<double> release_fraction_to_pixels)
-    : is_high(is_high),
-      capture_from_which_pixels(capture_from_which_pixels),
-      release_to_which_pixels(release_to_which_pixels),
-      release_fraction_to_pixels(release_fraction_to_pixels) {
-
-    n_capture_pixels = capture_from_which_pixels.size();
-    n_release_pixels = release_to_which_pixels.size();
-}
-
-// ========
-// ROE::
-// ========
-/*
-    Class ROE.
-
-    Information about the readout electronics.
-
-    For the standard mode, charge is read out from the pixels in which they
-    start to the readout register, so are transferred across a different number
-    of pixels depending on their initial distance from readout.
-
-    Each transfer from pixel to pixel may be a single step or decomposed into
-    multiple steps and multiple pixel phases, set by the clocking sequence.
-    Note that unlike the pixels, where pixel 0 is closest to readout and charge
-    moves from pixel p to p-1, for phases with a pixel, phase 0 is furthest from
-    readout and charge moves from phase i to i+1, as illustrated by the diagrams
-    for set_clock_sequence().
-
-    Parameters
-    ----------
-    dwell_times : std::valarray<double> (opt.)
-        The time between steps in the clocking sequence, in the same units
-        as the trap capture/release timescales. Default {1.0}.
-        
-    prescan_offset : int (opt.)
-        The number of pixels not present in the input array, through which
-        the charge had to pass in order to reach the readout amplifier.
-        Default [0]
-
-    overscan_start : int (opt.)
-        The number of pixels after which the input array that correspond to a 
-        virtual overscan, rather than physical pixels. Charge does not get  
-        trailed when it passes through these pixels (but it does through the   
-        rest of the CCD). This means that the input array can be larger than 
-        the CCD. Default [-1] means "no overscan".
-
-    empty_traps_between_columns : bool (opt.)
-        true:  Each column has independent traps (appropriate for parallel
-               clocking)
-        false: Each column moves through the same traps, which therefore
-               preserve occupancy, allowing trails to extend onto the next
-               column (appropriate for serial clocking, if all prescan and
-               overscan pixels are included in the image array). Default true.
-
-    empty_traps_for_first_transfers : bool (opt.)
-        If true, then tweak the express algorithm to treat every first 
-        pixel-to-pixel transfer separately to the rest. This is a bit slower,
-        but helps to conserve charge is the image size is small enough to be 
-        comparable to trail lengths.
-        Default false.
-
-        Physically, the first pixel that a charge cloud finds itself in will
-        start with empty traps, whereas every subsequent transfer sees traps
-        that may have been filled previously. With the default express
-        algorithm, this means the inherently different first-transfer would
-        be replicated many times for some pixels but not others. This
-        modification prevents that issue by modelling the first single
-        transfer for each pixel separately and then using the express
-        algorithm normally for the remainder, at the cost of modelling more
-        transfers.
-
-    force_release_away_from_readout : bool (opt.)
-        If true then force electrons to be released in a pixel not closer to
-        the readout. See set_clock_sequence() for more context. Default true.
-
-    use_integer_express_matrix : bool (opt.)
-        Old versions of this algorithm assumed (unnecessarily) that all
-        express multipliers must be integers. It can be slightly more efficient
-        if this requirement is dropped, but the option to force it is included
-        for backwards compatability. Default false.
-
-    Attributes
-    ----------
-    type : ROEType : enum int
-        The flag for the type of ROE. Used to tweak behaviour in CTI functions.
-
-    n_steps : int
-        The number of steps in the clocking sequence.
-
-    n_phases : int
-        The number of phases in each pixel. Defaults to n_steps, but may be
-        different for a non-standard type of clock sequence, e.g. trap pumping.
-*/
-ROE::ROE(
-    std::valarray<double>& dwell_times, 
-    int prescan_offset,
-    int overscan_start,
-    bool empty_traps_between_columns,
-    bool empty_traps_for_first_transfers, 
-    bool force_release_away_from_readout,
-    bool use_integer_express_matrix)
-    : dwell_times(dwell_times),
-      prescan_offset(prescan_offset),
-      overscan_start(overscan_start),
-      empty_traps_between_columns(empty_traps_between_columns),
-      empty_traps_for_first_transfers(empty_traps_for_first_transfers),
-      force_release_away_from_readout(force_release_away_from_readout),
-      use_integer_express_matrix(use_integer_express_matrix) {
-
-    type = roe_type_standard;
-    if ( prescan_offset < 0 ) throw std::invalid_argument( "prescan_offset must be zero or positive" );
-    if ( overscan_start != -1) {
-        if ( overscan_start <= 0 ) throw std::invalid_argument( "overscan_start must be positive" );
-    }
-    n_steps = dwell_times.size();
-    n_phases = n_steps;
-}
-
-/* Assignment operator. */
-ROE& ROE::operator=(const ROE& roe) {
-    dwell_times = roe.dwell_times;
-    prescan_offset = roe.prescan_offset;
-    overscan_start = roe.overscan_start;
-    empty_traps_between_columns = roe.empty_traps_between_columns;
-    empty_traps_for_first_transfers = roe.empty_traps_for_first_transfers;
-    force_release_away_from_readout = roe.force_release_away_from_readout;
-    use_integer_express_matrix = roe.use_integer_express_matrix;
-    type = roe.type;
-    n_steps = roe.n_steps;
-    n_phases = roe.n_phases;
-    n_pumps = roe.n_pumps;
-    return *this;
-}
-
-/*
-    Set the matrix of express multipliers.
-
-    To reduce runtime, instead of calculating the effects of every
-    pixel-to-pixel transfer, it is possible to approximate readout by
-    processing each transfer once (Anderson et al. 2010) or a few times
-    (Massey et al. 2014, section 2.1.5), then multiplying the effect of
-    that transfer by the number of transfers it represents. This function
-    computes the multiplicative factor, and returns it in a matrix that can
-    be easily looped over.
-
-    Parameters
-    ----------
-    n_rows : int
-        The number of rows in each column of the image. i.e. the number of
-        pixel-to-pixel transfers to move charge from the furthest pixel to the
-        readout register (if there is no offset).
-
-    express : int
-        The number of times the pixel-to-pixel transfers are computed for each
-        pixel, determining the balance between accuracy (high values) and speed
-        (low values).
-            n_rows      (slower, accurate) Compute every pixel-to-pixel
-                        transfer. The default 0 is an alias for n_rows.
-            k           Recompute on k occasions the effect of each transfer.
-                        After a few transfers (and e.g. eroded leading edges),
-                        the incremental effect of subsequent transfers can
-                        change.
-            1           (faster, approximate) Compute the effect of each
-                        transfer only once.
-
-    offset : int (opt.)
-        Consider all pixels to be offset by this number of pixels from the
-        readout register. Useful if working out the matrix for a postage
-        stamp image, or to account for prescan pixels whose data is not
-        stored. Default 0.
-
-    Sets
-    ----
-    express_matrix : std::valarray<double>
-        The express multiplier value for each pixel-to-pixel transfer, as a
-        2D-style 1D array.
-
-    n_express_passes : int
-        The number of express passes to run, i.e. the number of rows in the
-        matrices.
-*/
-void ROE::set_express_matrix_from_rows_and_express(
-    int n_rows, int express, int window_offset) {
-
-    // Set defaults
-    int offset = window_offset + prescan_offset;
-    int n_transfers = n_rows + offset; // transfers taken by farthest included pixel 
-    int overscan_in_image = 0; // number of pixels in the supplied image that are overscan
-    if (overscan_start >= 0)
-        overscan_in_image = std::max(n_rows + window_offset + 1 - overscan_start, 0);
-    if (express == 0)
-        express = n_transfers; // default express to all transfers, and check no larger
-    else
-        express = std::min(express, n_transfers);
-
-    /*print_v(
-        0,"offset: %d %d %d, n_transfers: %d, overscan: %d %d \n", 
-        offset, window_offset, prescan_offset, n_transfers, overscan_in_image, overscan_start
-    );*/ 
-    
- 
-    // Set default express to all transfers, and check no larger
-
-    // Temporarily ignore the first pixel-to-pixel transfer, if it is to be
-    // handled differently than the rest
-    bool separate_first_transfers =
-        (empty_traps_for_first_transfers) && (express < n_transfers);
-    if (separate_first_transfers) n_transfers--;
-
-    // Initialise an array with enough pixels to contain the supposed image,
-    // including offset
-    std::valarray<double> tmp_express_matrix(0.0, express * n_transfers);
-
-    // Temporary array for manipulating slices
-    std::valarray<double> tmp_row(0.0, n_transfers);
-
-    // Populate every row in the matrix with a range from 1 to n_transfers
-    // (plus 1 because it starts at 1 not 0)
-    for (int express_index = 0; express_index < express; express_index++)
-        tmp_express_matrix[std::slice(express_index * n_transfers, n_transfers, 1)] =
-            arange(1, n_transfers + 1);   
-    
-    // Compute the multiplier factors
-    double max_multiplier = (double) n_transfers / express;
-    if (use_integer_express_matrix) max_multiplier = ceil(max_multiplier);
-    // Offset each row to account for the pixels that have already been read out
-    for (int express_index = 0; express_index < express; express_index++) {
-        tmp_row =
-            tmp_express_matrix[std::slice(express_index * n_transfers, n_transfers, 1)];
-        tmp_express_matrix[std::slice(express_index * n_transfers, n_transfers, 1)] =
-            tmp_row - express_index * max_multiplier;
-    }
-    // Truncate all values to between 0 and max_multiplier
-    tmp_express_matrix[tmp_express_matrix < 0.0] = 0.0;
-    tmp_express_matrix[tmp_express_matrix > max_multiplier] = max_multiplier;
-    
-    // Add an extra (first) transfer for every pixel, the effect of which
-    // will only ever be counted once, because it is physically different
-    // from the other transfers (it sees only empty traps)
-    if ((empty_traps_for_first_transfers) && !separate_first_transfers) {
-        // Reverse order of operations, so that first transfer always sees empty traps
-        std::valarray<double> express_matrix_full = tmp_express_matrix;
-        for (int i = 0; i < express; i++) {
-            tmp_express_matrix[std::slice(
-                (express - i - 1) * n_transfers, n_transfers, 1)] =
-                express_matrix_full[std::slice(
-                i * n_transfers, n_transfers, 1)];
-        }
-        n_express_passes = express;
-        
-    } else if (separate_first_transfers) {
-        // Create a new matrix for the full number of transfers
-        // (this will eventually overwrite tmp_express_matrix, but that is first used)
-        n_transfers++;
-        std::valarray<double> express_matrix_full(0.0, n_transfers * n_transfers);
-        int i_transfer;
-        for (int express_index = 0; express_index < n_transfers; express_index++) {
-            i_transfer = n_transfers - express_index - 1;
-            express_matrix_full[express_index * n_transfers + i_transfer] = 1;
-        }
-
-        // Insert the original transfers into the new matrix at appropriate places
-        int new_index;
-        for (int old_index = 0; old_index < express; old_index++) {
-            // Count the number of non-zero transfers in each original row
-            tmp_row = tmp_express_matrix[std::slice(
-                old_index * (n_transfers - 1), n_transfers - 1, 1)];
-            tmp_row[tmp_row > 0.0] = 1.0;
-            new_index = (int)tmp_row.sum();
-
-            // Insert the original transfers
-            // (Using slice here doesn't compile on mac for some odd reason...)
-            for (int i = 0; i < n_transfers - 1; i++)
-                express_matrix_full[new_index * n_transfers + 1 + i] +=
-                    tmp_express_matrix[old_index * (n_transfers - 1) + i];
-        }
-
-        tmp_express_matrix = express_matrix_full;
-        n_express_passes = n_transfers;
-    } else {
-        n_express_passes = express;
-    }
-    express_matrix = tmp_express_matrix;
-    
-    // Remove the offset (which is not represented in the image pixels)
-    // std::cout << offset ;
-    if (offset > 0) {
-        //print_array_2D(tmp_express_matrix, n_transfers);
-        std::valarray<double> express_matrix_trim(0.0, n_express_passes * n_rows);
-
-        // Copy the post-offset slices of each row
-        for (int express_index = 0; express_index < n_express_passes; express_index++) {
-            express_matrix_trim[std::slice(express_index * n_rows, n_rows, 1)] =
-                express_matrix[std::slice(
-                    express_index * n_transfers + offset, n_rows, 1)];
-        }
-        //print_array_2D(express_matrix_trim, n_rows);
-        express_matrix = express_matrix_trim;
-    }
-
-    // Truncate number of transfers in regions of the image that represent overscan
-    //print_array_2D(express_matrix, n_rows);  
-    //std::cout << "overscan " << overscan_start << " f " << overscan_in_image << "\n";
-    if (overscan_in_image > 0) {
-        int n_express_rows = express_matrix.size() / n_rows;
-        for (int i_row = 0; i_row < std::min(overscan_in_image, n_rows); i_row++) {
-            double to_remove = overscan_in_image - i_row;
-            double removed = 0;
-            int i_express = 0;
-            while ((removed < to_remove) && (i_express < n_express_rows)) {
-                int index = (n_express_rows - i_express) * n_rows - i_row - 1;
-                if ( index < 0 ) throw std::invalid_argument( "Accessing pixel that does not exist" );
-                //std::cout << i_express << i_row << " " << to_remove << removed << " index " << index << "\n";
-                removed += express_matrix[index];
-                express_matrix[index] = fmax(removed - to_remove, 0);
-                i_express++;
-            }
-            
-        }
-    }
-    //print_array_2D(express_matrix, n_rows);
-}
-
-/*
-    Set the accompanying array to the express matrix of when to store the trap
-    occupancy states.
-
-    Allows the next express iteration to continue from an (approximately)
-    suitable configuration by restoring the saved states.
-
-    If the traps start empty (rather than restored), then the first capture in
-    each express loop is different from the rest: many electrons are lost. This
-    behaviour may be appropriate for the first pixel-to-pixel transfer of
-    each charge cloud, but not for subsequent transfers. It particularly
-    causes problems if the first transfer is used to represent many
-    transfers through the express mechanism, as the large loss of electrons
-    is multiplied up.
-
-    Sets
-    ----
-    store_trap_states_matrix : std::valarray<bool>
-        For each pixel-to-pixel transfer, set true to store the trap states, as
-        a 2D-style 1D array.
-*/
-void ROE::set_store_trap_states_matrix() {
-    store_trap_states_matrix = std::valarray<bool>(false, express_matrix.size());
-    int n_transfers = express_matrix.size() / n_express_passes;
-    int row_index;
-
-    // No need to store states if already using empty traps for first transfers
-    if (empty_traps_for_first_transfers) return;
-
-    // Store on the pixel before where the next express pass will begin, so
-    // that the trap states are appropriate for continuing in the next pass
-    for (int express_index = 0; express_index < n_express_passes - 1; express_index++) {
-        // If the next pass begins with the first pixel, as with an offset, then
-        // it begins from the same trap states as this one
-        if (express_matrix[(express_index + 1) * n_transfers] > 0.0) continue;
-
-        for (row_index = 0; row_index < n_transfers - 1; row_index++) {
-            if (express_matrix[(express_index + 1) * n_transfers + row_index + 1] > 0.0)
-                break;
-        }
-        store_trap_states_matrix[express_index * n_transfers + row_index] = true;
-    }
-}
-
-/*
-    Set the clock sequence 2D array of ROEStepPhase objects for each clocking
-    step and phase.
-
-    Sets
-    ----
-    clock_sequence : std::valarray<std::valarray<ROEStepPhase> >
-        The array of ROEStepPhase objects to describe the state of the readout
-        electronics in each phase of the pixel at each step in the clocking
-        sequence.
-
-    The first diagram below illustrates the steps in the standard sequence
-    (where the number of steps equals the number of phases) for three phases,
-    where a single phase each step has its potential held high to hold the
-    charge cloud. The cloud is shifted from phase 0 to phase N towards the
-    previous pixel and the readout register.
-
-    See ROETrapPumping::ROETrapPumping()'s docstring for the behaviour produced
-    by this function when the number of steps is double the number of phases,
-    to make an oscillating sequence for trap pumping.
-
-    The trap species in each phase of pixel p can capture electrons when that
-    phase's potential is high and a charge cloud is present. The "Capture from"
-    lines refer to the original pixel that the cloud was in. In this mode, this
-    is always the current pixel, but can be different for e.g. trap pumping.
-
-    When the traps release charge, it is assumed to move directly to the nearest
-    high potential, which may be in a different pixel. The "Release to" lines
-    show the pixel to which electrons released by that phase's traps will move.
-
-    Three phases
-    ============
-                #     Pixel p-1      #       Pixel p      #     Pixel p+1      #
-    Step         Phase2 Phase1 Phase0 Phase2 Phase1 Phase0 Phase2 Phase1 Phase0
-    0           +             +------+             +------+             +------+
-    Capture from|             |      |             |   p  |             |      |
-    Release to  |             |      |  p-1     p  |   p  |             |      |
-                +-------------+      +-------------+      +-------------+      +
-    1                  +------+             +------+             +------+
-    Capture from       |      |             |   p  |             |      |
-    Release to         |      |          p  |   p  |   p         |      |
-                -------+      +-------------+      +-------------+      +-------
-    2           +------+             +------+             +------+             +
-    Capture from|      |             |   p  |             |      |             |
-    Release to  |      |             |   p  |   p     p+1 |      |             |
-                +      +-------------+      +-------------+      +-------------+
-
-    Below are corresponding illustrations for one, two, and four phases. For an
-    even number of phases, one phase in each step will be equidistant from two
-    high potentials. So any released charge is assumed to split equally between
-    the two pixels, as indicated by the "Release to" lines.
-
-    One phase
-    =========
-                  Pixel p-1  Pixel p  Pixel p+1
-    Step            Phase0   Phase0   Phase0
-    0              +------+ +------+ +------+
-    Capture from   |      | |   p  | |      |
-    Release to     |      | |   p  | |      |
-                  -+      +-+      +-+      +-
-
-    Two phases
-    ==========
-                  #  Pixel p-1  #   Pixel p   #  Pixel p+1  #
-    Step           Phase1 Phase0 Phase1 Phase0 Phase1 Phase0
-    0             +      +------+      +------+      +------+
-    Capture from  |      |      |      |   p  |      |      |
-    Release to    |      |      | p-1&p|   p  |      |      |
-                  +------+      +------+      +------+      +
-    1             +------+      +------+      +------+      +
-    Capture from  |      |      |   p  |      |      |      |
-    Release to    |      |      |   p  | p&p+1|      |      |
-                  +      +------+      +------+      +------+
-
-    Four phases
-    ===========
-               Pixel p-1      #          Pixel p          #         Pixel p+1
-    Step         Phase1 Phase0 Phase3 Phase2 Phase1 Phase0 Phase3 Phase2 Phase1
-    0                  +------+                    +------+                    +
-    Capture from       |      |                    |   p  |                    |
-    Release to         |      |  p-1   p-1&p    p  |   p  |                    |
-                -------+      +--------------------+      +--------------------+
-    1           +------+                    +------+                    +------+
-    Capture from|      |                    |   p  |                    |      |
-    Release to  |      |        p-1&p    p  |   p  |   p                |      |
-                +      +--------------------+      +--------------------+      +
-    2           +                    +------+                    +------+
-    Capture from|                    |   p  |                    |      |
-    Release to  |                p   |   p  |   p    p&p+1       |      |
-                +--------------------+      +--------------------+      +-------
-    3                         +------+                    +------+
-    Capture from              |   p  |                    |      |
-    Release to                |   p  |   p    p&p+1  p+1  |      |
-                --------------+      +--------------------+      +--------------
-
-    ## Document force_release_away_from_readout = true
-*/
-void ROE::set_clock_sequence() {
-
-    bool is_high;
-    std::valarray<int> capture_from_which_pixels;
-    std::valarray<int> release_to_which_pixels;
-    std::valarray<int> zero_one = {0, 1};
-    std::valarray<double> release_fraction_to_pixels;
-    int i_step_loop;
-    int i_phase_high;
-    int i_phase_split_release;
-
-    clock_sequence.resize(n_steps);
-
-    // Set the ROEStepPhase objects for each step in the sequence
-    for (int i_step = 0; i_step < n_steps; i_step++) {
-        clock_sequence[i_step].resize(n_phases);
-
-        // Convert e.g. 0,1,2,3,4,5 to 0,1,2,3,2,1 used for trap pumping, has
-        // no effect with standard n_phases = n_steps
-        i_step_loop = abs((i_step + n_phases) % (2 * n_phases) - n_phases);
-
-        // Index of the high phase in this step
-        i_phase_high = i_step_loop % n_phases;
-
-        // Index of the phase (if any) in this step for which released charge
-        // will split and move into two pixels because the nearest high phases
-        // are equidistant in both directions
-        if (n_phases % 2 == 0)
-            i_phase_split_release = (i_phase_high + n_phases / 2) % n_phases;
-        else
-            i_phase_split_release = -1;
-
-        // Each phase in this step
-        for (int i_phase = 0; i_phase < n_phases; i_phase++) {
-            // Is this phase high?
-            if (i_phase == i_phase_high)
-                is_high = true;
-            else
-                is_high = false;
-
-            // The pixel to capture from, if any
-            if (is_high)
-                // Capture from this pixel's charge cloud unless the previous
-                // pixel's charge cloud has been shifted into this pixel
-                if (i_step_loop > n_phases - 1)
-                    capture_from_which_pixels = {1};
-                else
-                    capture_from_which_pixels = {0};
-            else
-                capture_from_which_pixels = {};
-
-            // The pixel(s) to release to
-            if (i_phase == i_phase_split_release) {
-                // Split the release between this and the pixel with the joint-
-                // nearest high phase
-                if (i_phase < i_phase_high)
-                    release_to_which_pixels = zero_one;
-                else
-                    release_to_which_pixels = zero_one - 1;
-                release_fraction_to_pixels = {0.5, 0.5};
-            } else {
-                // For high phases, release to same pixel as capture
-                if (is_high)
-                    release_to_which_pixels = capture_from_which_pixels;
-                else {
-                    // Release to the single pixel with the nearest high phase
-                    if (i_phase - i_phase_high < -n_phases / 2)
-                        release_to_which_pixels = {1};
-                    else if (i_phase - i_phase_high > n_phases / 2)
-                        release_to_which_pixels = {-1};
-                    else
-                        release_to_which_pixels = {0};
-                }
-                release_fraction_to_pixels = {1.0};
-            }
-            // Release from low phases to the previous pixel's charge cloud if
-            // it's been shifted into this pixel
-            if ((!is_high) && (i_step_loop > n_phases - 1))
-                release_to_which_pixels += 1;
-
-            // Replace capture/release operations that include a closer-to-
-            // readout pixel to instead act on the further-from-readout pixel
-            // (i.e. the same operation but on the next pixel in the loop)
-            //## should this instead just find and change {-1}s to {0}s?
-            if ((force_release_away_from_readout) && (i_phase > i_phase_high)) {
-                capture_from_which_pixels += 1;
-                release_to_which_pixels += 1;
-            }
-
-            // Set the info for this step and phase
-            clock_sequence[i_step][i_phase] = ROEStepPhase(
-                is_high, capture_from_which_pixels, release_to_which_pixels,
-                release_fraction_to_pixels);
-        }
-    }
-}
-
-// ========
-// ROEChargeInjection::
-// ========
-/*
-    Class ROEChargeInjection.
-
-    Modified ROE for charge injection modes.
-
-    Instead of charge starting in each pixel and moving different distances to
-    the readout register, for charge injection the electrons are directly
-    created at the far end of the CCD, then are all transferred the same number
-    of times through the full image of pixels to the readout register.
-
-    Parameters
-    ----------
-    Same as ROE, but empty_traps_for_first_transfers is automatically false,
-    since only the single leading pixel of the charge injection in each column
-    will see the untouched traps.
-*/
-ROEChargeInjection::ROEChargeInjection(
-    std::valarray<double>& dwell_times, 
-    int prescan_offset,
-    int overscan_start,
-    bool empty_traps_between_columns,
-    bool force_release_away_from_readout, 
-    bool use_integer_express_matrix)
-    : ROE(dwell_times, prescan_offset, overscan_start, empty_traps_between_columns, false,
-          force_release_away_from_readout, use_integer_express_matrix) {
-
-    type = roe_type_charge_injection;
-}
-
-/*
-    See ROE::set_express_matrix_from_rows_and_express().
-
-    For charge injection, all charges are clocked the same number of times
-    through all the pixels to the readout register.
-*/
-void ROEChargeInjection::set_express_matrix_from_rows_and_express(
-    int n_rows, int express, int window_offset) {
-    
-/*    
-    // Can almost do with (just) the following
-    if (overscan_start <= 0)
-        overscan_start = n_rows + window_offset + 1;
-    int overscan_start_temp = overscan_start;
-    prescan_offset += (overscan_start - 1); // Add all pixels into the "prescan"
-    overscan_start = 1; // Start overscan immediately after the prescan
-    ROE::set_express_matrix_from_rows_and_express(n_rows, express, window_offset);
-    overscan_start = overscan_start_temp;
-    prescan_offset -= (overscan_start - 1); 
-*/    
-
-    // Set defaults
-    //int offset = window_offset + prescan_offset;
-    int n_transfers = prescan_offset + window_offset + n_rows; // transfers taken by farthest included pixel 
-    if (overscan_start >= 0) n_transfers = std::max(0, prescan_offset + overscan_start - 1);
-    if (express == 0)
-        express = n_transfers; // default express to all transfers, and check no larger
-    else
-        express = std::min(express, n_transfers);
-    express = std::max(express, 1); // one empty pass if there are no transfers at all
-    n_express_passes = express;
-
-    // Compute the multiplier factors
-    double max_multiplier = (double)n_transfers / express;
-    if (use_integer_express_matrix) max_multiplier = ceil(max_multiplier);
-
-    // Initialise an array that will become the express matrix (can't create the array itself)
-    std::valarray<double> tmp_express_matrix(max_multiplier, express * n_rows);
-
-    // Adjust integer multipliers to correct the total number of transfers
-    if ((use_integer_express_matrix) && (n_transfers % express != 0)) {
-        double current_n_transfers;
-        double reduced_multiplier;
-
-        for (int express_index = express - 1; express_index >= 0; express_index--) {
-            // Count the current number of transfers for this pixel
-            current_n_transfers = 0.0;
-            for (int i = 0; i <= express_index; i++) {
-                current_n_transfers += tmp_express_matrix[i * n_rows];
-            }
-
-            // Reduce the multipliers until no longer have too many transfers
-            if (current_n_transfers <= n_transfers) break;
-            reduced_multiplier =
-                std::max(0.0, max_multiplier + n_transfers - current_n_transfers);
-            tmp_express_matrix[std::slice(
-                express_index * n_rows, n_rows, 1)] = reduced_multiplier;
-        }
-    }
-    express_matrix = tmp_express_matrix;
-
-}
-
-/*
-    See ROE::set_store_trap_states_matrix().
-
-    For charge injection, the first charge cloud in each column will always
-    encounter empty traps in every new pixel. So no need to store trap states
-    between transfers.
-*/
-void ROEChargeInjection::set_store_trap_states_matrix() {
-    store_trap_states_matrix = std::valarray<bool>(false, express_matrix.size());
-}
-
-// ========
-// ROETrapPumping::
-// ========
-/*
-    Class ROETrapPumping.
-
-    Modified ROE for trap pumping (AKA pocket pumping) modes.
-
-    Instead of clocking the charge in all pixels towards the readout register,
-    trap pumping shifts the charge back and forth, to end up in the same place
-    they began. If one pixel (and phase) contains traps and its neighbours do
-    not, then a charge dipole can be created as charge is captured and released
-    asymmetrically in the active and adjacent pixel. This allows direct study of
-    the trap species in a CCD.
-
-    The number of phases is assumed to be half the number of steps in the clock
-    sequence, which must be even.
-
-    Currently, this algorithm assumes that only a single pixel is active and
-    contains traps.
-
-    Parameters
-    ----------
-    Same as ROE, but empty_traps_between_columns is automatically true, and
-    force_release_away_from_readout is automatically false.
-
-    n_pumps : int
-        The number of times the charge is pumped back and forth.
-
-    The diagram below illustrates the steps in the clocking sequence produced
-    by ROE::set_clock_sequence() in this mode, for three phases. The first three
-    steps are the same as the standard case. However, now there are three
-    additional steps in which the charge cloud is shifted one step further into
-    the next pixel, but then back to where it began in the original pixel,
-    instead of continuing on towards the readout register.
-
-    This means that, unlike in the standard case, the traps in this pixel can
-    capture charge that originated in a different pixel, as shown in step 3,
-    where the high phase in pixel p contains the charge cloud that started in
-    pixel p+1.
-
-    Three phases
-    ============
-                #     Pixel p-1      #       Pixel p      #     Pixel p+1      #
-    Step         Phase2 Phase1 Phase0 Phase2 Phase1 Phase0 Phase2 Phase1 Phase0
-    0           +             +------+             +------+             +------+
-    Capture from|             |      |             |   p  |             |      |
-    Release to  |             |      |  p-1     p  |   p  |             |      |
-                +-------------+      +-------------+      +-------------+      +
-    1                  +------+             +------+             +------+
-    Capture from       |      |             |   p  |             |      |
-    Release to         |      |          p  |   p  |   p         |      |
-                -------+      +-------------+      +-------------+      +-------
-    2           +------+             +------+             +------+             +
-    Capture from|      |             |   p  |             |      |             |
-    Release to  |      |             |   p  |   p     p+1 |      |             |
-                +      +-------------+      +-------------+      +-------------+
-    3           +             +------+             +------+             +------+
-    Capture from|             |      |             |  p+1 |             |      |
-    Release to  |             |      |   p     p+1 |  p+1 |             |      |
-                +-------------+      +-------------+      +-------------+      |
-    4           +------+             +------+             +------+             +
-    Capture from|      |             |   p  |             |      |             |
-    Release to  |      |             |   p  |   p     p+1 |      |             |
-                +      +-------------+      +-------------+      +-------------+
-    5                  +------+             +------+             +------+
-    Capture from       |      |             |   p  |             |      |
-    Release to         |      |          p  |   p  |   p         |      |
-                -------+      +-------------+      +-------------+      +-------
-
-    Below are corresponding illustrations for two and four phases. As in the
-    standard case, an even number of phases leads to released charge being split
-    in one phase each step between twp pixels.
-
-    Two phases
-    ==========
-                  #  Pixel p-1  #   Pixel p   #  Pixel p+1  #
-    Step           Phase1 Phase0 Phase1 Phase0 Phase1 Phase0
-    0             +      +------+      +------+      +------+
-    Capture from  |      |      |      |   p  |      |      |
-    Release to    |      |      | p-1&p|   p  |      |      |
-                  +------+      +------+      +------+      +
-    1             +------+      +------+      +------+      +
-    Capture from  |      |      |   p  |      |      |      |
-    Release to    |      |      |   p  | p&p+1|      |      |
-                  +      +------+      +------+      +------+
-    2             +      +------+      +------+      +------+
-    Capture from  |      |      |      |  p+1 |      |      |
-    Release to    |      |      | p&p+1|  p+1 |      |      |
-                  +------+      +------+      +------+      +
-    3             +------+      +------+      +------+      +
-    Capture from  |      |      |   p  |      |      |      |
-    Release to    |      |      |   p  | p&p+1|      |      |
-                  +      +------+      +------+      +------+
-
-    Four phases
-    ===========
-               Pixel p-1      #          Pixel p          #         Pixel p+1
-    Step         Phase1 Phase0 Phase3 Phase2 Phase1 Phase0 Phase3 Phase2 Phase1
-    0                  +------+                    +------+                    +
-    Capture from       |      |                    |   p  |                    |
-    Release to         |      |  p-1   p-1&p    p  |   p  |                    |
-                -------+      +--------------------+      +--------------------+
-    1           +------+                    +------+                    +------+
-    Capture from|      |                    |   p  |                    |      |
-    Release to  |      |        p-1&p    p  |   p  |   p                |      |
-                +      +--------------------+      +--------------------+      +
-    2           +                    +------+                    +------+
-    Capture from|                    |   p  |                    |      |
-    Release to  |                p   |   p  |   p    p&p+1       |      |
-                +--------------------+      +--------------------+      +-------
-    3                         +------+                    +------+
-    Capture from              |   p  |                    |      |
-    Release to                |   p  |   p    p&p+1  p+1  |      |
-                --------------+      +--------------------+      +--------------
-    4                  +------+                    +------+                    +
-    Capture from       |      |                    |  p+1 |                    |
-    Release to         |      |   p    p&p+1   p+1 |  p+1 |                    |
-                -------+      +--------------------+      +--------------------+
-    5                         +------+                    +------+
-    Capture from              |   p  |                    |      |
-    Release to                |   p  |   p    p&p+1  p+1  |      |
-                --------------+      +--------------------+      +--------------
-    6           +                    +------+                    +------+
-    Capture from|                    |   p  |                    |      |
-    Release to  |                p   |   p  |   p    p&p+1       |      |
-                +--------------------+      +--------------------+      +-------
-    7           +------+                    +------+                    +------+
-    Capture from|      |                    |   p  |                    |      |
-    Release to  |      |        p-1&p    p  |   p  |   p                |      |
-                +      +--------------------+      +--------------------+      +
-*/
-ROETrapPumping::ROETrapPumping(
-    std::valarray<double>& dwell_times, int n_pumps,
-    bool empty_traps_for_first_transfers, bool use_integer_express_matrix)
-    : ROE(dwell_times, 0, -1, true, empty_traps_for_first_transfers, false,
-          use_integer_express_matrix) {
-
-    type = roe_type_trap_pumping;
-    this->n_pumps = n_pumps;
-
-    if (n_steps % 2 != 0)
-        error("The number of steps for trap pumping (%d) must be even", n_steps);
-    n_phases = n_steps / 2;
-}
-
-/*
-    See ROE::set_express_matrix_from_rows_and_express().
-
-    For trap pumping, instead of charge being transferred from pixel to pixel
-    until readout, only the back-and-forth pumping clock sequence is repeated a
-    number of times for the active pixel(s) containing charge.
-
-    Currently, this algorithm assumes that only a single pixel is active and
-    contains traps. So, rather than the number of pixels and offset (which must
-    be 1 and 0) the number of express passes is controlled by the number of
-    pumps back and forth.
-
-    Conveniently, the required express multipliers are the same as the ones for
-    the pixel furthest from readout with standard clocking.
-*/
-void ROETrapPumping::set_express_matrix_from_rows_and_express(
-    int n_rows, int express, int window_offset) {
-
-    // Set default express to all transfers, and check no larger
-    if (express == 0)
-        express = n_pumps;
-    else
-        express = std::min(express, n_pumps);
-
-    // Start with the standard express matrix for n_transfers = n_pumps
-    ROE::set_express_matrix_from_rows_and_express(n_pumps, express, window_offset);
-
-    // Extract the relevant express multipliers of the final pixel
-    std::valarray<double> tmp_col(0.0, n_express_passes);
-    for (int express_index = 0; express_index < n_express_passes; express_index++) {
-        tmp_col[express_index] = express_matrix[n_pumps - 1 + express_index * n_pumps];
-    }
-
-    // Extract the non-zero elements if doing first transfers separately
-    if ((empty_traps_for_first_transfers) && (express < n_pumps)) {
-        std::valarray<double> tmp_col_2 = tmp_col[tmp_col != 0.0];
-
-        n_express_passes = express + 1;
-        tmp_col.resize(n_express_passes);
-        // Set the non-zero elements, which won't fill the final entries for
-        // mismatched integer multipliers, leaving those zero
-        // (Using slice here doesn't compile on mac for some odd reason...)
-        for (size_t i = 0; i < tmp_col_2.size(); i++) tmp_col[i] = tmp_col_2[i];
-    }
-
-    express_matrix.resize(n_rows * n_express_passes);
-    // Set multipliers for all rows, even though only one row will be active and
-    // actually used
-    for (int row_index = 0; row_index < n_rows; row_index++) {
-        express_matrix[std::slice(row_index, n_express_passes, n_rows)] = tmp_col;
-    }
-}
-
-/*
-    See ROE::set_store_trap_states_matrix().
-
-    For trap pumping, trap states must be stored after every pump sequence of
-    the same trap, until the final pump.
-*/
-void ROETrapPumping::set_store_trap_states_matrix() {
-    // Store after each active pass
-    store_trap_states_matrix = std::valarray<bool>(false, express_matrix.size());
-    store_trap_states_matrix[express_matrix != 0.0] = true;
-
-    // Don't store the final pass
-    int n_rows = express_matrix.size() / n_express_passes;
-    store_trap_states_matrix[std::slice((n_express_passes - 1) * n_rows, n_rows, 1)] =
-        false;
-}
+
+#include "roe.hpp"
+
+#include <math.h>
+#include <stdio.h>
+
+#include <valarray>
+
+#include <iostream>
+#include "util.hpp"
+
+// ========
+// ROEStepPhase::
+// ========
+/*
+    Class ROEStepPhase.
+
+    Information about the readout electronics at one step in a clocking sequence
+    at one phase in the pixel. Used to determine the pixels and phases in
+    which electrons can be held, captured from, and released to, at this point
+    in the sequence.
+
+    Parameters
+    ----------
+    is_high : bool
+        Whether or not the potential is currently held "high", i.e. able to
+        contain free electrons.
+
+    capture_from_which_pixels : std::valarray<int>
+        The relative row number of the pixel to capture from.
+
+    release_to_which_pixels : std::valarray<int>
+        The relative row number of the pixel to release to.
+
+    release_fraction_to_pixels : std::valarray<double>
+        The fraction of the electrons to be released into this pixel.
+
+    Attributes
+    ----------
+    n_capture_pixels, n_release_pixels : int
+        The lengths of the *_which_pixels arrays.
+*/
+ROEStepPhase::ROEStepPhase(
+    bool is_high, std::valarray<int> capture_from_which_pixels,
+    std::valarray<int> release_to_which_pixels,
+    std::valarray<double> release_fraction_to_pixels)
+    : is_high(is_high),
+      capture_from_which_pixels(capture_from_which_pixels),
+      release_to_which_pixels(release_to_which_pixels),
+      release_fraction_to_pixels(release_fraction_to_pixels) {
+
+    n_capture_pixels = capture_from_which_pixels.size();
+    n_release_pixels = release_to_which_pixels.size();
+}
+
+// ========
+// ROE::
+// ========
+/*
+    Class ROE.
+
+    Information about the readout electronics.
+
+    For the standard mode, charge is read out from the pixels in which they
+    start to the readout register, so are transferred across a different number
+    of pixels depending on their initial distance from readout.
+
+    Each transfer from pixel to pixel may be a single step or decomposed into
+    multiple steps and multiple pixel phases, set by the clocking sequence.
+    Note that unlike the pixels, where pixel 0 is closest to readout and charge
+    moves from pixel p to p-1, for phases with a pixel, phase 0 is furthest from
+    readout and charge moves from phase i to i+1, as illustrated by the diagrams
+    for set_clock_sequence().
+
+    Parameters
+    ----------
+    dwell_times : std::valarray<double> (opt.)
+        The time between steps in the clocking sequence, in the same units
+        as the trap capture/release timescales. Default {1.0}.
+        
+    prescan_offset : int (opt.)
+        The number of pixels not present in the input array, through which
+        the charge had to pass in order to reach the readout amplifier.
+        Default [0]
+
+    overscan_start : int (opt.)
+        The number of pixels after which the input array that correspond to a 
+        virtual overscan, rather than physical pixels. Charge does not get  
+        trailed when it passes through these pixels (but it does through the   
+        rest of the CCD). This means that the input array can be larger than 
+        the CCD. Default [-1] means "no overscan".
+
+    empty_traps_between_columns : bool (opt.)
+        true:  Each column has independent traps (appropriate for parallel
+               clocking)
+        false: Each column moves through the same traps, which therefore
+               preserve occupancy, allowing trails to extend onto the next
+               column (appropriate for serial clocking, if all prescan and
+               overscan pixels are included in the image array). Default true.
+
+    empty_traps_for_first_transfers : bool (opt.)
+        If true, then tweak the express algorithm to treat every first 
+        pixel-to-pixel transfer separately to the rest. This is a bit slower,
+        but helps to conserve charge is the image size is small enough to be 
+        comparable to trail lengths.
+        Default false.
+
+        Physically, the first pixel that a charge cloud finds itself in will
+        start with empty traps, whereas every subsequent transfer sees traps
+        that may have been filled previously. With the default express
+        algorithm, this means the inherently different first-transfer would
+        be replicated many times for some pixels but not others. This
+        modification prevents that issue by modelling the first single
+        transfer for each pixel separately and then using the express
+        algorithm normally for the remainder, at the cost of modelling more
+        transfers.
+
+    force_release_away_from_readout : bool (opt.)
+        If true then force electrons to be released in a pixel not closer to
+        the readout. See set_clock_sequence() for more context. Default true.
+
+    use_integer_express_matrix : bool (opt.)
+        Old versions of this algorithm assumed (unnecessarily) that all
+        express multipliers must be integers. It can be slightly more efficient
+        if this requirement is dropped, but the option to force it is included
+        for backwards compatability. Default false.
+
+    Attributes
+    ----------
+    type : ROEType : enum int
+        The flag for the type of ROE. Used to tweak behaviour in CTI functions.
+
+    n_steps : int
+        The number of steps in the clocking sequence.
+
+    n_phases : int
+        The number of phases in each pixel. Defaults to n_steps, but may be
+        different for a non-standard type of clock sequence, e.g. trap pumping.
+*/
+ROE::ROE(
+    std::valarray<double>& dwell_times, 
+    int prescan_offset,
+    int overscan_start,
+    bool empty_traps_between_columns,
+    bool empty_traps_for_first_transfers, 
+    bool force_release_away_from_readout,
+    bool use_integer_express_matrix)
+    : dwell_times(dwell_times),
+      prescan_offset(prescan_offset),
+      overscan_start(overscan_start),
+      empty_traps_between_columns(empty_traps_between_columns),
+      empty_traps_for_first_transfers(empty_traps_for_first_transfers),
+      force_release_away_from_readout(force_release_away_from_readout),
+      use_integer_express_matrix(use_integer_express_matrix) {
+
+    type = roe_type_standard;
+    if ( prescan_offset < 0 ) throw std::invalid_argument( "prescan_offset must be zero or positive" );
+    if ( overscan_start != -1) {
+        if ( overscan_start <= 0 ) throw std::invalid_argument( "overscan_start must be positive" );
+    }
+    n_steps = dwell_times.size();
+    n_phases = n_steps;
+}
+
+/* Assignment operator. */
+ROE& ROE::operator=(const ROE& roe) {
+    dwell_times = roe.dwell_times;
+    prescan_offset = roe.prescan_offset;
+    overscan_start = roe.overscan_start;
+    empty_traps_between_columns = roe.empty_traps_between_columns;
+    empty_traps_for_first_transfers = roe.empty_traps_for_first_transfers;
+    force_release_away_from_readout = roe.force_release_away_from_readout;
+    use_integer_express_matrix = roe.use_integer_express_matrix;
+    type = roe.type;
+    n_steps = roe.n_steps;
+    n_phases = roe.n_phases;
+    n_pumps = roe.n_pumps;
+    return *this;
+}
+
+/*
+    Set the matrix of express multipliers.
+
+    To reduce runtime, instead of calculating the effects of every
+    pixel-to-pixel transfer, it is possible to approximate readout by
+    processing each transfer once (Anderson et al. 2010) or a few times
+    (Massey et al. 2014, section 2.1.5), then multiplying the effect of
+    that transfer by the number of transfers it represents. This function
+    computes the multiplicative factor, and returns it in a matrix that can
+    be easily looped over.
+
+    Parameters
+    ----------
+    n_rows : int
+        The number of rows in each column of the image. i.e. the number of
+        pixel-to-pixel transfers to move charge from the furthest pixel to the
+        readout register (if there is no offset).
+
+    express : int
+        The number of times the pixel-to-pixel transfers are computed for each
+        pixel, determining the balance between accuracy (high values) and speed
+        (low values).
+            n_rows      (slower, accurate) Compute every pixel-to-pixel
+                        transfer. The default 0 is an alias for n_rows.
+            k           Recompute on k occasions the effect of each transfer.
+                        After a few transfers (and e.g. eroded leading edges),
+                        the incremental effect of subsequent transfers can
+                        change.
+            1           (faster, approximate) Compute the effect of each
+                        transfer only once.
+
+    offset : int (opt.)
+        Consider all pixels to be offset by this number of pixels from the
+        readout register. Useful if working out the matrix for a postage
+        stamp image, or to account for prescan pixels whose data is not
+        stored. Default 0.
+
+    Sets
+    ----
+    express_matrix : std::valarray<double>
+        The express multiplier value for each pixel-to-pixel transfer, as a
+        2D-style 1D array.
+
+    n_express_passes : int
+        The number of express passes to run, i.e. the number of rows in the
+        matrices.
+*/
+void ROE::set_express_matrix_from_rows_and_express(
+    int n_rows, int express, int window_offset) {
+
+    // Set defaults
+    int offset = window_offset + prescan_offset;
+    int n_transfers = n_rows + offset; // transfers taken by farthest included pixel 
+    int overscan_in_image = 0; // number of pixels in the supplied image that are overscan
+    if (overscan_start >= 0)
+        overscan_in_image = std::max(n_rows + window_offset + 1 - overscan_start, 0);
+    if (express == 0)
+        express = n_transfers; // default express to all transfers, and check no larger
+    else
+        express = std::min(express, n_transfers);
+
+    /*print_v(
+        0,"offset: %d %d %d, n_transfers: %d, overscan: %d %d \n", 
+        offset, window_offset, prescan_offset, n_transfers, overscan_in_image, overscan_start
+    );*/ 
+    
+ 
+    // Set default express to all transfers, and check no larger
+
+    // Temporarily ignore the first pixel-to-pixel transfer, if it is to be
+    // handled differently than the rest
+    bool separate_first_transfers =
+        (empty_traps_for_first_transfers) && (express < n_transfers);
+    if (separate_first_transfers) n_transfers--;
+
+    // Initialise an array with enough pixels to contain the supposed image,
+    // including offset
+    std::valarray<double> tmp_express_matrix(0.0, express * n_transfers);
+
+    // Temporary array for manipulating slices
+    std::valarray<double> tmp_row(0.0, n_transfers);
+
+    // Populate every row in the matrix with a range from 1 to n_transfers
+    // (plus 1 because it starts at 1 not 0)
+    for (int express_index = 0; express_index < express; express_index++)
+        tmp_express_matrix[std::slice(express_index * n_transfers, n_transfers, 1)] =
+            arange(1, n_transfers + 1);   
+    
+    // Compute the multiplier factors
+    double max_multiplier = (double) n_transfers / express;
+    if (use_integer_express_matrix) max_multiplier = ceil(max_multiplier);
+    // Offset each row to account for the pixels that have already been read out
+    for (int express_index = 0; express_index < express; express_index++) {
+        tmp_row =
+            tmp_express_matrix[std::slice(express_index * n_transfers, n_transfers, 1)];
+        tmp_express_matrix[std::slice(express_index * n_transfers, n_transfers, 1)] =
+            tmp_row - express_index * max_multiplier;
+    }
+    // Truncate all values to between 0 and max_multiplier
+    tmp_express_matrix[tmp_express_matrix < 0.0] = 0.0;
+    tmp_express_matrix[tmp_express_matrix > max_multiplier] = max_multiplier;
+    
+    // Add an extra (first) transfer for every pixel, the effect of which
+    // will only ever be counted once, because it is physically different
+    // from the other transfers (it sees only empty traps)
+    if ((empty_traps_for_first_transfers) && !separate_first_transfers) {
+        // Reverse order of operations, so that first transfer always sees empty traps
+        std::valarray<double> express_matrix_full = tmp_express_matrix;
+        for (int i = 0; i < express; i++) {
+            tmp_express_matrix[std::slice(
+                (express - i - 1) * n_transfers, n_transfers, 1)] =
+                express_matrix_full[std::slice(
+                i * n_transfers, n_transfers, 1)];
+        }
+        n_express_passes = express;
+        
+    } else if (separate_first_transfers) {
+        // Create a new matrix for the full number of transfers
+        // (this will eventually overwrite tmp_express_matrix, but that is first used)
+        n_transfers++;
+        std::valarray<double> express_matrix_full(0.0, n_transfers * n_transfers);
+        int i_transfer;
+        for (int express_index = 0; express_index < n_transfers; express_index++) {
+            i_transfer = n_transfers - express_index - 1;
+            express_matrix_full[express_index * n_transfers + i_transfer] = 1;
+        }
+
+        // Insert the original transfers into the new matrix at appropriate places
+        int new_index;
+        for (int old_index = 0; old_index < express; old_index++) {
+            // Count the number of non-zero transfers in each original row
+            tmp_row = tmp_express_matrix[std::slice(
+                old_index * (n_transfers - 1), n_transfers - 1, 1)];
+            tmp_row[tmp_row > 0.0] = 1.0;
+            new_index = (int)tmp_row.sum();
+
+            // Insert the original transfers
+            // (Using slice here doesn't compile on mac for some odd reason...)
+            for (int i = 0; i < n_transfers - 1; i++)
+                express_matrix_full[new_index * n_transfers + 1 + i] +=
+                    tmp_express_matrix[old_index * (n_transfers - 1) + i];
+        }
+
+        tmp_express_matrix = express_matrix_full;
+        n_express_passes = n_transfers;
+    } else {
+        n_express_passes = express;
+    }
+    express_matrix = tmp_express_matrix;
+    
+    // Remove the offset (which is not represented in the image pixels)
+    // std::cout << offset ;
+    if (offset > 0) {
+        //print_array_2D(tmp_express_matrix, n_transfers);
+        std::valarray<double> express_matrix_trim(0.0, n_express_passes * n_rows);
+
+        // Copy the post-offset slices of each row
+        for (int express_index = 0; express_index < n_express_passes; express_index++) {
+            express_matrix_trim[std::slice(express_index * n_rows, n_rows, 1)] =
+                express_matrix[std::slice(
+                    express_index * n_transfers + offset, n_rows, 1)];
+        }
+        //print_array_2D(express_matrix_trim, n_rows);
+        express_matrix = express_matrix_trim;
+    }
+
+    // Truncate number of transfers in regions of the image that represent overscan
+    //print_array_2D(express_matrix, n_rows);  
+    //std::cout << "overscan " << overscan_start << " f " << overscan_in_image << "\n";
+    if (overscan_in_image > 0) {
+        int n_express_rows = express_matrix.size() / n_rows;
+        for (int i_row = 0; i_row < std::min(overscan_in_image, n_rows); i_row++) {
+            double to_remove = overscan_in_image - i_row;
+            double removed = 0;
+            int i_express = 0;
+            while ((removed < to_remove) && (i_express < n_express_rows)) {
+                int index = (n_express_rows - i_express) * n_rows - i_row - 1;
+                if ( index < 0 ) throw std::invalid_argument( "Accessing pixel that does not exist" );
+                //std::cout << i_express << i_row << " " << to_remove << removed << " index " << index << "\n";
+                removed += express_matrix[index];
+                express_matrix[index] = fmax(removed - to_remove, 0);
+                i_express++;
+            }
+            
+        }
+    }
+    //print_array_2D(express_matrix, n_rows);
+}
+
+/*
+    Set the accompanying array to the express matrix of when to store the trap
+    occupancy states.
+
+    Allows the next express iteration to continue from an (approximately)
+    suitable configuration by restoring the saved states.
+
+    If the traps start empty (rather than restored), then the first capture in
+    each express loop is different from the rest: many electrons are lost. This
+    behaviour may be appropriate for the first pixel-to-pixel transfer of
+    each charge cloud, but not for subsequent transfers. It particularly
+    causes problems if the first transfer is used to represent many
+    transfers through the express mechanism, as the large loss of electrons
+    is multiplied up.
+
+    Sets
+    ----
+    store_trap_states_matrix : std::valarray<bool>
+        For each pixel-to-pixel transfer, set true to store the trap states, as
+        a 2D-style 1D array.
+*/
+void ROE::set_store_trap_states_matrix() {
+    store_trap_states_matrix = std::valarray<bool>(false, express_matrix.size());
+    int n_transfers = express_matrix.size() / n_express_passes;
+    int row_index;
+
+    // No need to store states if already using empty traps for first transfers
+    if (empty_traps_for_first_transfers) return;
+
+    // Store on the pixel before where the next express pass will begin, so
+    // that the trap states are appropriate for continuing in the next pass
+    for (int express_index = 0; express_index < n_express_passes - 1; express_index++) {
+        // If the next pass begins with the first pixel, as with an offset, then
+        // it begins from the same trap states as this one
+        if (express_matrix[(express_index + 1) * n_transfers] > 0.0) continue;
+
+        for (row_index = 0; row_index < n_transfers - 1; row_index++) {
+            if (express_matrix[(express_index + 1) * n_transfers + row_index + 1] > 0.0)
+                break;
+        }
+        store_trap_states_matrix[express_index * n_transfers + row_index] = true;
+    }
+}
+
+/*
+    Set the clock sequence 2D array of ROEStepPhase objects for each clocking
+    step and phase.
+
+    Sets
+    ----
+    clock_sequence : std::valarray<std::valarray<ROEStepPhase> >
+        The array of ROEStepPhase objects to describe the state of the readout
+        electronics in each phase of the pixel at each step in the clocking
+        sequence.
+
+    The first diagram below illustrates the steps in the standard sequence
+    (where the number of steps equals the number of phases) for three phases,
+    where a single phase each step has its potential held high to hold the
+    charge cloud. The cloud is shifted from phase 0 to phase N towards the
+    previous pixel and the readout register.
+
+    See ROETrapPumping::ROETrapPumping()'s docstring for the behaviour produced
+    by this function when the number of steps is double the number of phases,
+    to make an oscillating sequence for trap pumping.
+
+    The trap species in each phase of pixel p can capture electrons when that
+    phase's potential is high and a charge cloud is present. The "Capture from"
+    lines refer to the original pixel that the cloud was in. In this mode, this
+    is always the current pixel, but can be different for e.g. trap pumping.
+
+    When the traps release charge, it is assumed to move directly to the nearest
+    high potential, which may be in a different pixel. The "Release to" lines
+    show the pixel to which electrons released by that phase's traps will move.
+
+    Three phases
+    ============
+                #     Pixel p-1      #       Pixel p      #     Pixel p+1      #
+    Step         Phase2 Phase1 Phase0 Phase2 Phase1 Phase0 Phase2 Phase1 Phase0
+    0           +             +------+             +------+             +------+
+    Capture from|             |      |             |   p  |             |      |
+    Release to  |             |      |  p-1     p  |   p  |             |      |
+                +-------------+      +-------------+      +-------------+      +
+    1                  +------+             +------+             +------+
+    Capture from       |      |             |   p  |             |      |
+    Release to         |      |          p  |   p  |   p         |      |
+                -------+      +-------------+      +-------------+      +-------
+    2           +------+             +------+             +------+             +
+    Capture from|      |             |   p  |             |      |             |
+    Release to  |      |             |   p  |   p     p+1 |      |             |
+                +      +-------------+      +-------------+      +-------------+
+
+    Below are corresponding illustrations for one, two, and four phases. For an
+    even number of phases, one phase in each step will be equidistant from two
+    high potentials. So any released charge is assumed to split equally between
+    the two pixels, as indicated by the "Release to" lines.
+
+    One phase
+    =========
+                  Pixel p-1  Pixel p  Pixel p+1
+    Step            Phase0   Phase0   Phase0
+    0              +------+ +------+ +------+
+    Capture from   |      | |   p  | |      |
+    Release to     |      | |   p  | |      |
+                  -+      +-+      +-+      +-
+
+    Two phases
+    ==========
+                  #  Pixel p-1  #   Pixel p   #  Pixel p+1  #
+    Step           Phase1 Phase0 Phase1 Phase0 Phase1 Phase0
+    0             +      +------+      +------+      +------+
+    Capture from  |      |      |      |   p  |      |      |
+    Release to    |      |      | p-1&p|   p  |      |      |
+                  +------+      +------+      +------+      +
+    1             +------+      +------+      +------+      +
+    Capture from  |      |      |   p  |      |      |      |
+    Release to    |      |      |   p  | p&p+1|      |      |
+                  +      +------+      +------+      +------+
+
+    Four phases
+    ===========
+               Pixel p-1      #          Pixel p          #         Pixel p+1
+    Step         Phase1 Phase0 Phase3 Phase2 Phase1 Phase0 Phase3 Phase2 Phase1
+    0                  +------+                    +------+                    +
+    Capture from       |      |                    |   p  |                    |
+    Release to         |      |  p-1   p-1&p    p  |   p  |                    |
+                -------+      +--------------------+      +--------------------+
+    1           +------+                    +------+                    +------+
+    Capture from|      |                    |   p  |                    |      |
+    Release to  |      |        p-1&p    p  |   p  |   p                |      |
+                +      +--------------------+      +--------------------+      +
+    2           +                    +------+                    +------+
+    Capture from|                    |   p  |                    |      |
+    Release to  |                p   |   p  |   p    p&p+1       |      |
+                +--------------------+      +--------------------+      +-------
+    3                         +------+                    +------+
+    Capture from              |   p  |                    |      |
+    Release to                |   p  |   p    p&p+1  p+1  |      |
+                --------------+      +--------------------+      +--------------
+
+    ## Document force_release_away_from_readout = true
+*/
+void ROE::set_clock_sequence() {
+
+    bool is_high;
+    std::valarray<int> capture_from_which_pixels;
+    std::valarray<int> release_to_which_pixels;
+    std::valarray<int> zero_one = {0, 1};
+    std::valarray<double> release_fraction_to_pixels;
+    int i_step_loop;
+    int i_phase_high;
+    int i_phase_split_release;
+
+    clock_sequence.resize(n_steps);
+
+    // Set the ROEStepPhase objects for each step in the sequence
+    for (int i_step = 0; i_step < n_steps; i_step++) {
+        clock_sequence[i_step].resize(n_phases);
+
+        // Convert e.g. 0,1,2,3,4,5 to 0,1,2,3,2,1 used for trap pumping, has
+        // no effect with standard n_phases = n_steps
+        i_step_loop = abs((i_step + n_phases) % (2 * n_phases) - n_phases);
+
+        // Index of the high phase in this step
+        i_phase_high = i_step_loop % n_phases;
+
+        // Index of the phase (if any) in this step for which released charge
+        // will split and move into two pixels because the nearest high phases
+        // are equidistant in both directions
+        if (n_phases % 2 == 0)
+            i_phase_split_release = (i_phase_high + n_phases / 2) % n_phases;
+        else
+            i_phase_split_release = -1;
+
+        // Each phase in this step
+        for (int i_phase = 0; i_phase < n_phases; i_phase++) {
+            // Is this phase high?
+            if (i_phase == i_phase_high)
+                is_high = true;
+            else
+                is_high = false;
+
+            // The pixel to capture from, if any
+            if (is_high)
+                // Capture from this pixel's charge cloud unless the previous
+                // pixel's charge cloud has been shifted into this pixel
+                if (i_step_loop > n_phases - 1)
+                    capture_from_which_pixels = {1};
+                else
+                    capture_from_which_pixels = {0};
+            else
+                capture_from_which_pixels = {};
+
+            // The pixel(s) to release to
+            if (i_phase == i_phase_split_release) {
+                // Split the release between this and the pixel with the joint-
+                // nearest high phase
+                if (i_phase < i_phase_high)
+                    release_to_which_pixels = zero_one;
+                else
+                    release_to_which_pixels = zero_one - 1;
+                release_fraction_to_pixels = {0.5, 0.5};
+            } else {
+                // For high phases, release to same pixel as capture
+                if (is_high)
+                    release_to_which_pixels = capture_from_which_pixels;
+                else {
+                    // Release to the single pixel with the nearest high phase
+                    if (i_phase - i_phase_high < -n_phases / 2)
+                        release_to_which_pixels = {1};
+                    else if (i_phase - i_phase_high > n_phases / 2)
+                        release_to_which_pixels = {-1};
+                    else
+                        release_to_which_pixels = {0};
+                }
+                release_fraction_to_pixels = {1.0};
+            }
+            // Release from low phases to the previous pixel's charge cloud if
+            // it's been shifted into this pixel
+            if ((!is_high) && (i_step_loop > n_phases - 1))
+                release_to_which_pixels += 1;
+
+            // Replace capture/release operations that include a closer-to-
+            // readout pixel to instead act on the further-from-readout pixel
+            // (i.e. the same operation but on the next pixel in the loop)
+            //## should this instead just find and change {-1}s to {0}s?
+            if ((force_release_away_from_readout) && (i_phase > i_phase_high)) {
+                capture_from_which_pixels += 1;
+                release_to_which_pixels += 1;
+            }
+
+            // Set the info for this step and phase
+            clock_sequence[i_step][i_phase] = ROEStepPhase(
+                is_high, capture_from_which_pixels, release_to_which_pixels,
+                release_fraction_to_pixels);
+        }
+    }
+}
+
+// ========
+// ROEChargeInjection::
+// ========
+/*
+    Class ROEChargeInjection.
+
+    Modified ROE for charge injection modes.
+
+    Instead of charge starting in each pixel and moving different distances to
+    the readout register, for charge injection the electrons are directly
+    created at the far end of the CCD, then are all transferred the same number
+    of times through the full image of pixels to the readout register.
+
+    Parameters
+    ----------
+    Same as ROE, but empty_traps_for_first_transfers is automatically false,
+    since only the single leading pixel of the charge injection in each column
+    will see the untouched traps.
+*/
+ROEChargeInjection::ROEChargeInjection(
+    std::valarray<double>& dwell_times, 
+    int prescan_offset,
+    int overscan_start,
+    bool empty_traps_between_columns,
+    bool force_release_away_from_readout, 
+    bool use_integer_express_matrix)
+    : ROE(dwell_times, prescan_offset, overscan_start, empty_traps_between_columns, false,
+          force_release_away_from_readout, use_integer_express_matrix) {
+
+    type = roe_type_charge_injection;
+}
+
+/*
+    See ROE::set_express_matrix_from_rows_and_express().
+
+    For charge injection, all charges are clocked the same number of times
+    through all the pixels to the readout register.
+*/
+void ROEChargeInjection::set_express_matrix_from_rows_and_express(
+    int n_rows, int express, int window_offset) {
+    
+/*    
+    // Can almost do with (just) the following
+    if (overscan_start <= 0)
+        overscan_start = n_rows + window_offset + 1;
+    int overscan_start_temp = overscan_start;
+    prescan_offset += (overscan_start - 1); // Add all pixels into the "prescan"
+    overscan_start = 1; // Start overscan immediately after the prescan
+    ROE::set_express_matrix_from_rows_and_express(n_rows, express, window_offset);
+    overscan_start = overscan_start_temp;
+    prescan_offset -= (overscan_start - 1); 
+*/    
+
+    // Set defaults
+    //int offset = window_offset + prescan_offset;
+    int n_transfers = prescan_offset + window_offset + n_rows; // transfers taken by farthest included pixel 
+    if (overscan_start >= 0) n_transfers = std::max(0, prescan_offset + overscan_start - 1);
+    if (express == 0)
+        express = n_transfers; // default express to all transfers, and check no larger
+    else
+        express = std::min(express, n_transfers);
+    express = std::max(express, 1); // one empty pass if there are no transfers at all
+    n_express_passes = express;
+
+    // Compute the multiplier factors
+    double max_multiplier = (double)n_transfers / express;
+    if (use_integer_express_matrix) max_multiplier = ceil(max_multiplier);
+
+    // Initialise an array that will become the express matrix (can't create the array itself)
+    std::valarray<double> tmp_express_matrix(max_multiplier, express * n_rows);
+
+    // Adjust integer multipliers to correct the total number of transfers
+    if ((use_integer_express_matrix) && (n_transfers % express != 0)) {
+        double current_n_transfers;
+        double reduced_multiplier;
+
+        for (int express_index = express - 1; express_index >= 0; express_index--) {
+            // Count the current number of transfers for this pixel
+            current_n_transfers = 0.0;
+            for (int i = 0; i <= express_index; i++) {
+                current_n_transfers += tmp_express_matrix[i * n_rows];
+            }
+
+            // Reduce the multipliers until no longer have too many transfers
+            if (current_n_transfers <= n_transfers) break;
+            reduced_multiplier =
+                std::max(0.0, max_multiplier + n_transfers - current_n_transfers);
+            tmp_express_matrix[std::slice(
+                express_index * n_rows, n_rows, 1)] = reduced_multiplier;
+        }
+    }
+    express_matrix = tmp_express_matrix;
+
+}
+
+/*
+    See ROE::set_store_trap_states_matrix().
+
+    For charge injection, the first charge cloud in each column will always
+    encounter empty traps in every new pixel. So no need to store trap states
+    between transfers.
+*/
+void ROEChargeInjection::set_store_trap_states_matrix() {
+    store_trap_states_matrix = std::valarray<bool>(false, express_matrix.size());
+}
+
+// ========
+// ROETrapPumping::
+// ========
+/*
+    Class ROETrapPumping.
+
+    Modified ROE for trap pumping (AKA pocket pumping) modes.
+
+    Instead of clocking the charge in all pixels towards the readout register,
+    trap pumping shifts the charge back and forth, to end up in the same place
+    they began. If one pixel (and phase) contains traps and its neighbours do
+    not, then a charge dipole can be created as charge is captured and released
+    asymmetrically in the active and adjacent pixel. This allows direct study of
+    the trap species in a CCD.
+
+    The number of phases is assumed to be half the number of steps in the clock
+    sequence, which must be even.
+
+    Currently, this algorithm assumes that only a single pixel is active and
+    contains traps.
+
+    Parameters
+    ----------
+    Same as ROE, but empty_traps_between_columns is automatically true, and
+    force_release_away_from_readout is automatically false.
+
+    n_pumps : int
+        The number of times the charge is pumped back and forth.
+
+    The diagram below illustrates the steps in the clocking sequence produced
+    by ROE::set_clock_sequence() in this mode, for three phases. The first three
+    steps are the same as the standard case. However, now there are three
+    additional steps in which the charge cloud is shifted one step further into
+    the next pixel, but then back to where it began in the original pixel,
+    instead of continuing on towards the readout register.
+
+    This means that, unlike in the standard case, the traps in this pixel can
+    capture charge that originated in a different pixel, as shown in step 3,
+    where the high phase in pixel p contains the charge cloud that started in
+    pixel p+1.
+
+    Three phases
+    ============
+                #     Pixel p-1      #       Pixel p      #     Pixel p+1      #
+    Step         Phase2 Phase1 Phase0 Phase2 Phase1 Phase0 Phase2 Phase1 Phase0
+    0           +             +------+             +------+             +------+
+    Capture from|             |      |             |   p  |             |      |
+    Release to  |             |      |  p-1     p  |   p  |             |      |
+                +-------------+      +-------------+      +-------------+      +
+    1                  +------+             +------+             +------+
+    Capture from       |      |             |   p  |             |      |
+    Release to         |      |          p  |   p  |   p         |      |
+                -------+      +-------------+      +-------------+      +-------
+    2           +------+             +------+             +------+             +
+    Capture from|      |             |   p  |             |      |             |
+    Release to  |      |             |   p  |   p     p+1 |      |             |
+                +      +-------------+      +-------------+      +-------------+
+    3           +             +------+             +------+             +------+
+    Capture from|             |      |             |  p+1 |             |      |
+    Release to  |             |      |   p     p+1 |  p+1 |             |      |
+                +-------------+      +-------------+      +-------------+      |
+    4           +------+             +------+             +------+             +
+    Capture from|      |             |   p  |             |      |             |
+    Release to  |      |             |   p  |   p     p+1 |      |             |
+                +      +-------------+      +-------------+      +-------------+
+    5                  +------+             +------+             +------+
+    Capture from       |      |             |   p  |             |      |
+    Release to         |      |          p  |   p  |   p         |      |
+                -------+      +-------------+      +-------------+      +-------
+
+    Below are corresponding illustrations for two and four phases. As in the
+    standard case, an even number of phases leads to released charge being split
+    in one phase each step between twp pixels.
+
+    Two phases
+    ==========
+                  #  Pixel p-1  #   Pixel p   #  Pixel p+1  #
+    Step           Phase1 Phase0 Phase1 Phase0 Phase1 Phase0
+    0             +      +------+      +------+      +------+
+    Capture from  |      |      |      |   p  |      |      |
+    Release to    |      |      | p-1&p|   p  |      |      |
+                  +------+      +------+      +------+      +
+    1             +------+      +------+      +------+      +
+    Capture from  |      |      |   p  |      |      |      |
+    Release to    |      |      |   p  | p&p+1|      |      |
+                  +      +------+      +------+      +------+
+    2             +      +------+      +------+      +------+
+    Capture from  |      |      |      |  p+1 |      |      |
+    Release to    |      |      | p&p+1|  p+1 |      |      |
+                  +------+      +------+      +------+      +
+    3             +------+      +------+      +------+      +
+    Capture from  |      |      |   p  |      |      |      |
+    Release to    |      |      |   p  | p&p+1|      |      |
+                  +      +------+      +------+      +------+
+
+    Four phases
+    ===========
+               Pixel p-1      #          Pixel p          #         Pixel p+1
+    Step         Phase1 Phase0 Phase3 Phase2 Phase1 Phase0 Phase3 Phase2 Phase1
+    0                  +------+                    +------+                    +
+    Capture from       |      |                    |   p  |                    |
+    Release to         |      |  p-1   p-1&p    p  |   p  |                    |
+                -------+      +--------------------+      +--------------------+
+    1           +------+                    +------+                    +------+
+    Capture from|      |                    |   p  |                    |      |
+    Release to  |      |        p-1&p    p  |   p  |   p                |      |
+                +      +--------------------+      +--------------------+      +
+    2           +                    +------+                    +------+
+    Capture from|                    |   p  |                    |      |
+    Release to  |                p   |   p  |   p    p&p+1       |      |
+                +--------------------+      +--------------------+      +-------
+    3                         +------+                    +------+
+    Capture from              |   p  |                    |      |
+    Release to                |   p  |   p    p&p+1  p+1  |      |
+                --------------+      +--------------------+      +--------------
+    4                  +------+                    +------+                    +
+    Capture from       |      |                    |  p+1 |                    |
+    Release to         |      |   p    p&p+1   p+1 |  p+1 |                    |
+                -------+      +--------------------+      +--------------------+
+    5                         +------+                    +------+
+    Capture from              |   p  |                    |      |
+    Release to                |   p  |   p    p&p+1  p+1  |      |
+                --------------+      +--------------------+      +--------------
+    6           +                    +------+                    +------+
+    Capture from|                    |   p  |                    |      |
+    Release to  |                p   |   p  |   p    p&p+1       |      |
+                +--------------------+      +--------------------+      +-------
+    7           +------+                    +------+                    +------+
+    Capture from|      |                    |   p  |                    |      |
+    Release to  |      |        p-1&p    p  |   p  |   p                |      |
+                +      +--------------------+      +--------------------+      +
+*/
+ROETrapPumping::ROETrapPumping(
+    std::valarray<double>& dwell_times, int n_pumps,
+    bool empty_traps_for_first_transfers, bool use_integer_express_matrix)
+    : ROE(dwell_times, 0, -1, true, empty_traps_for_first_transfers, false,
+          use_integer_express_matrix) {
+
+    type = roe_type_trap_pumping;
+    this->n_pumps = n_pumps;
+
+    if (n_steps % 2 != 0)
+        error("The number of steps for trap pumping (%d) must be even", n_steps);
+    n_phases = n_steps / 2;
+}
+
+/*
+    See ROE::set_express_matrix_from_rows_and_express().
+
+    For trap pumping, instead of charge being transferred from pixel to pixel
+    until readout, only the back-and-forth pumping clock sequence is repeated a
+    number of times for the active pixel(s) containing charge.
+
+    Currently, this algorithm assumes that only a single pixel is active and
+    contains traps. So, rather than the number of pixels and offset (which must
+    be 1 and 0) the number of express passes is controlled by the number of
+    pumps back and forth.
+
+    Conveniently, the required express multipliers are the same as the ones for
+    the pixel furthest from readout with standard clocking.
+*/
+void ROETrapPumping::set_express_matrix_from_rows_and_express(
+    int n_rows, int express, int window_offset) {
+
+    // Set default express to all transfers, and check no larger
+    if (express == 0)
+        express = n_pumps;
+    else
+        express = std::min(express, n_pumps);
+
+    // Start with the standard express matrix for n_transfers = n_pumps
+    ROE::set_express_matrix_from_rows_and_express(n_pumps, express, window_offset);
+
+    // Extract the relevant express multipliers of the final pixel
+    std::valarray<double> tmp_col(0.0, n_express_passes);
+    for (int express_index = 0; express_index < n_express_passes; express_index++) {
+        tmp_col[express_index] = express_matrix[n_pumps - 1 + express_index * n_pumps];
+    }
+
+    // Extract the non-zero elements if doing first transfers separately
+    if ((empty_traps_for_first_transfers) && (express < n_pumps)) {
+        std::valarray<double> tmp_col_2 = tmp_col[tmp_col != 0.0];
+
+        n_express_passes = express + 1;
+        tmp_col.resize(n_express_passes);
+        // Set the non-zero elements, which won't fill the final entries for
+        // mismatched integer multipliers, leaving those zero
+        // (Using slice here doesn't compile on mac for some odd reason...)
+        for (size_t i = 0; i < tmp_col_2.size(); i++) tmp_col[i] = tmp_col_2[i];
+    }
+
+    express_matrix.resize(n_rows * n_express_passes);
+    // Set multipliers for all rows, even though only one row will be active and
+    // actually used
+    for (int row_index = 0; row_index < n_rows; row_index++) {
+        express_matrix[std::slice(row_index, n_express_passes, n_rows)] = tmp_col;
+    }
+}
+
+/*
+    See ROE::set_store_trap_states_matrix().
+
+    For trap pumping, trap states must be stored after every pump sequence of
+    the same trap, until the final pump.
+*/
+void ROETrapPumping::set_store_trap_states_matrix() {
+    // Store after each active pass
+    store_trap_states_matrix = std::valarray<bool>(false, express_matrix.size());
+    store_trap_states_matrix[express_matrix != 0.0] = true;
+
+    // Don't store the final pass
+    int n_rows = express_matrix.size() / n_express_passes;
+    store_trap_states_matrix[std::slice((n_express_passes - 1) * n_rows, n_rows, 1)] =
+        false;
+}
diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 704d4fd..2da9296 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1,2490 +1,2490 @@
-
-#include "trap_managers.hpp"
-
-#include <math.h>
-#include <stdio.h>
-
-#include <valarray>
-
-#include "ccd.hpp"
-#include "traps.hpp"
-#include "util.hpp"
-#include <iostream>
-
-// ========
-// TrapManagerBase::
-// ========
-/*
-    Class TrapManagerBase.
-
-    Abstract base class for the trap manager of one or multiple trap species
-    that are able to use watermarks in the same way as each other.
-
-    Parameters
-    ----------
-    traps : std::valarray<Trap>
-        A list of one or more trap species of the specific trap manager's type.
-
-        Not included in this base class, since the different managers require
-        different class types for the array.
-
-    max_n_transfers : int
-        The number of pixel transfers containing traps that charge will be
-        expected to go through. This feeds in to the maximum number of possible
-        capture/release events that could create new watermark levels, and is
-        used to initialise the watermark array to be only as large as needed.
-
-    ccd_phase : CCDPhase
-        Parameters to describe how electrons fill the volume inside (one phase
-        of) a pixel in a CCD detector.
-
-    dwell_time : double
-        The time spent in this pixel or phase, in the same units as the trap
-        timescales.
-
-    Attributes
-    ----------
-    n_traps : int
-        The number of trap species.
-
-    trap_densities : std::valarray<double>
-        The density of each trap species.
-
-    watermark_volumes : std::valarray<double>
-        Array of watermark fractional volumes to describe the trap states, i.e.
-        the proportion of the pixel volume occupied by each (active) watermark.
-
-    watermark_fills : std::valarray<double>
-        2D-style 1D array of watermark fill fractions to describe the trap
-        states, i.e. the proportion of traps that are filled in each (active)
-        watermark, multiplied by the trap's density, for each trap species.
-
-        Examples of slicing the arrays:
-            The ith watermark, jth trap fill:
-                watermark_fills[ i * n_traps + j ]
-
-            The ith watermark "row" of the fills:
-                watermark_fills[ std::slice(i * n_traps, n_traps, 1) ]
-
-            The ith trap species "column" of the fills:
-                watermark_fills[ std::slice(i, n_watermarks, n_traps) ]
-
-            The ith-to-jth watermark slices of the volumes and (all) the fills:
-                watermark_volumes[ std::slice(i, j - i, 1) ]
-                watermark_fills[ std::slice(i * n_traps, (j - i) * n_traps, 1) ]
-
-    empty_watermark : double
-        The watermark fill value corresponding to empty traps.
-
-    zeroth_watermark : double
-        The lowest watermark height value yet considered.
-
-    n_active_watermarks : int
-        The number of currently active watermark levels.
-
-    i_first_active_wmk : int
-        The index of the first active watermark. The effective starting point
-        for the active region of the watermark arrays. i.e. watermark levels
-        below this are ignored because they've been superseded.
-
-        This is primarily used by instant-capture traps where a charge cloud
-        will entirely fill all traps below it, making any pre-existing lower
-        watermarks no longer necessary to track.
-
-    n_watermarks_per_transfer : int
-        The number of new watermarks that could be made in each transfer.
-
-    n_watermarks : int
-        The total number of available watermark levels, determined by the number
-        of potential watermark-creating transfers and the watermarking scheme.
-*/
-TrapManagerBase::TrapManagerBase(
-    int max_n_transfers, CCDPhase ccd_phase, double dwell_time)
-    : max_n_transfers(max_n_transfers), ccd_phase(ccd_phase), dwell_time(dwell_time) {
-
-    empty_watermark = 0.0;
-    zeroth_watermark = 0.0;
-    n_active_watermarks = 0;
-    i_first_active_wmk = 0;
-    n_watermarks_per_transfer = 1;
-}
-
-/*
-    Initialise the watermark arrays.
-
-    Sets
-    ----
-    n_watermarks : int
-        The total number of available watermarks.
-
-    watermark_volumes, watermark_fills : std::valarray<double>
-        The initial empty watermark arrays.
-*/
-void TrapManagerBase::initialise_trap_states() {
-    n_watermarks = max_n_transfers * n_watermarks_per_transfer + 1;
-
-    watermark_volumes = std::valarray<double>(zeroth_watermark, n_watermarks);
-    watermark_fills = std::valarray<double>(empty_watermark, n_traps * n_watermarks);
-    //empty_probabilities_from_release = std::valarray<double>(0.0, n_traps);
-    
-    // Initialise the stored trap states too
-    store_trap_states();
-}
-
-/*
-    Reset the watermark arrays to empty.
-*/
-void TrapManagerBase::reset_trap_states() {
-    n_active_watermarks = 0;
-    i_first_active_wmk = 0;
-    watermark_volumes = zeroth_watermark;
-    watermark_fills = empty_watermark;
-}
-
-/*
-    Store the watermark arrays to be loaded again later.
-*/
-void TrapManagerBase::store_trap_states() {
-    stored_n_active_watermarks = n_active_watermarks;
-    stored_i_first_active_wmk = i_first_active_wmk;
-    stored_watermark_volumes = watermark_volumes;
-    stored_watermark_fills = watermark_fills;
-}
-
-/*
-    Restore the watermark arrays to their saved values.
-*/
-void TrapManagerBase::restore_trap_states() {
-    n_active_watermarks = stored_n_active_watermarks;
-    i_first_active_wmk = stored_i_first_active_wmk;
-    watermark_volumes = stored_watermark_volumes;
-    watermark_fills = stored_watermark_fills;
-}
-
-/*
-    Call any necessary initialisation functions, etc.
-*/
-void TrapManagerBase::setup() { initialise_trap_states(); }
-
-/*
-    Report the number of electrons currently held in all traps
-    within a single watermark.
-
-    Returns
-    -------
-    n_trapped_electrons_per_watermark : std::valarray<double>
-        The total number of electrons (summed over different species of 
-        traps) stored in a particular watermark.
-*/
-double TrapManagerBase::n_trapped_electrons_in_watermark(int i_wmk) {
-
-    // Fill fraction * trap density (an array for each trap species)
-    std::valarray<double> fill_fractions_in_this_wmk =
-        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
-    // Multiplied by volume
-    double n_trapped_electrons_in_this_wmk = 
-        fill_fractions_in_this_wmk.sum() * watermark_volumes[i_wmk];
-
-    return n_trapped_electrons_in_this_wmk;
-}
-
-/*
-    Report the number of electrons currently held in all traps.
-
-    Returns
-    -------
-    n_trapped_electrons_per_watermark : std::valarray<double>
-        The total number of electrons (summed over different species of 
-        traps) stored in all watermarks.
-*/
-std::valarray<double> TrapManagerBase::n_trapped_electrons_per_watermark() {
-
-    // Count the total number of electrons in each active watermark
-    std::valarray<double> fill_fractions_this_wmk(n_traps);
-    std::valarray<double> n_trapped_electrons_per_wmk(n_watermarks);
-    double n_trapped_electrons_in_total = 0;
-    double highest_watermark = 0;
-
-
-    for (int i_wmk = i_first_active_wmk;
-        i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-
-        // Extract the fill fractions in a 1D array
-        fill_fractions_this_wmk =
-            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
-        // Sum the fill fractions and multiply by the fractional volume
-        n_trapped_electrons_per_wmk[i_wmk] = 
-            fill_fractions_this_wmk.sum() * watermark_volumes[i_wmk];
-                
-        //print_v(0,"watermArk: %d volume: %g fill: %g n_electrons: %g n_traps: %d \n", 
-        //    i_wmk,watermark_volumes[i_wmk],
-        //    fill_fractions_this_wmk.sum(),
-        //    n_trapped_electrons_per_wmk[i_wmk],n_traps);
-
-    }
-    //print_v(0,"Total n_electrons %16.12g, highest watermark %16.12g\n",n_trapped_electrons_in_total,highest_watermark);
-
-    return n_trapped_electrons_per_wmk;
-}
-double TrapManagerBase::n_trapped_electrons_total() {
-
-    // No watermarks
-    if (n_active_watermarks == 0) return 0.0;
-    
-    // Sum over all watermarks
-    double n_trapped_electrons = (n_trapped_electrons_per_watermark()).sum();
-
-    return n_trapped_electrons;
-}
-
-
-
-/*
-    Sum the total number of electrons currently held in traps.
-
-    Parameters
-    ----------
-    wmk_volumes, wmk_fills : std::valarray<double>
-        The watermark arrays.
-
-    Returns
-    -------
-    n_trapped_electrons : double
-        The number of electrons stored in traps.
-*/
-double TrapManagerBase::n_trapped_electrons_from_watermarks(
-    std::valarray<double> wmk_volumes, std::valarray<double> wmk_fills) {
-
-    // No watermarks
-    if (n_active_watermarks == 0) return 0.0;
-
-    double n_trapped_electrons_total = 0.0;
-    std::valarray<double> n_trapped_electrons_this_wmk(n_traps);
-
-    // Each active watermark
-    for (int i_wmk = i_first_active_wmk;
-         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-        // Extract the fill fractions in a 1D array
-        n_trapped_electrons_this_wmk =
-            wmk_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
-
-        // Sum the fill fractions and multiply by the fractional volume
-        n_trapped_electrons_total += n_trapped_electrons_this_wmk.sum() * wmk_volumes[i_wmk];
-    }
-
-    return n_trapped_electrons_total;
-}
-
-
-
-/*
-    Reduce the value of the lowest watermark ever seen. It starts at zero, so this
-    function is only activated if the image contains negative pixels. 
-
-    Parameters
-    ----------
-    cloud_fractional_volume : double
-        The fractional volume the electron cloud reaches in the pixel well.
-
-    Returns
-    -------
-    i_wmk_above_cloud : int
-        The index of the first active watermark that reaches above the cloud.
-*/
-void TrapManagerBase::lower_zeroth_watermark(double n_free_electrons) {
-    //zeroth_watermark = n_free_electrons;
-}
-
-
-
-/*
-    Remove watermarks containing very low numbers of electrons, for speed later.
-    
-    To remove watermark i that contains Ni electrons in volume Vi,
-    we push all those electrons down to the next lower watermark b such that
-      Vb' = Vb + Vb Ni/Nb
-      fb' = fb
-      Nb' = Nb + Ni   ( = Vb' * fb' )
-    and increase the volume of the watermark above such that
-      Va' = Va + Vi - Vb Ni/Nb
-      fa' = fa * Va/Va'
-      Na' = Na        ( = Va' * fa' )
-    
-    Parameters
-    ----------
-    min_n_electrons : double Default [0] i.e. do nothing
-        If this is positive...
-        If a watermark contains fewer than this number of electrons, it will be
-        dissolved.
-        If this is negative...
-        If a watermark will release fewer than this number of electrons in the next
-        time setp, it will be dissolved.
-*/
-void TrapManagerBase::prune_watermarks(double min_n_electrons) {
-
-    
-
-    // With only one watermark, not much can be done
-    if (n_active_watermarks <= 1) return; // Cannot prune if there is only a trunk
-    if (n_trapped_electrons_in_watermark(i_first_active_wmk) <= 0) return; // Something has gone wrong to get here
-    print_v(3, "prune watermarks continaing fewer than %g electrons. Watermarks: %d %d\n", min_n_electrons, i_first_active_wmk, n_active_watermarks);
-
-    // Count the total number of electrons in each watermark
-    print_v(3,"\n\n Fill fractions before prune (first %d n %d)\n",i_first_active_wmk, n_active_watermarks);
-    std::valarray<double> n_trapped_electrons_per_wmk = n_trapped_electrons_per_watermark();
-    double n_trapped_electrons_start = n_trapped_electrons_per_wmk.sum();
-    double n_trapped_electrons_in_this_wmk;
-    double test_value;
-    double test_criterion = abs(min_n_electrons);
-              
-    // Consider each active watermark
-    int n_watermarks_pruned = 0;
-    for (int i_wmk = i_first_active_wmk + 1;
-        i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-        
-        int i_wmk_prime = i_wmk - n_watermarks_pruned;
-                
-        // Work out how many electrons are in this watermark
-        n_trapped_electrons_in_this_wmk = n_trapped_electrons_in_watermark(i_wmk_prime);
-        if (min_n_electrons > 0) {
-            test_value = n_trapped_electrons_in_this_wmk;
-        } else {
-            test_value = n_electrons_released_from_wmk_above_cloud(i_wmk_prime);
-        } 
-
-        // Volume this watermark's electrons would fill as part of the one below
-        double n_trapped_electrons_in_last_wmk = n_trapped_electrons_in_watermark(i_wmk_prime - 1);
-
-        double delta_volume_below = watermark_volumes[i_wmk_prime - 1] *
-            n_trapped_electrons_in_this_wmk / n_trapped_electrons_in_last_wmk;
-
-        // Don't dissolve a watermark into a less full one, left by earlier pruning,
-        // that would have to reach beyond it to hold its electrons
-        if (test_value < test_criterion &&
-            delta_volume_below <= watermark_volumes[i_wmk_prime]) {
-            
-            // Push the small number of electrons down into previous watermark
-            // (redistributing them between trap species by keeping fill fractions 
-            // as before, but increasing the watermark volume. This is not ideal
-            // but ensures no fill fractions ever exceed 1)
-
-/*            // Temp report
-            std::valarray<double> fill_fractions_in_down_wmk =
-                watermark_fills[std::slice((i_wmk_prime-1) * n_traps, n_traps, 1)];
-            double n_trapped_electrons_in_down_wmk = 
-                fill_fractions_in_down_wmk.sum() * watermark_volumes[i_wmk_prime-1]; 
-            print_v(0,"DownIncTo: %d volume: %g fill: %g n_electrons: %g \n", 
-                i_wmk_prime-1,watermark_volumes[i_wmk_prime-1],
-                fill_fractions_in_down_wmk.sum(),
-                n_trapped_electrons_in_down_wmk);
-
-            // Temp report
-            std::valarray<double> fill_fractions_in_this_wmk =
-                watermark_fills[std::slice(i_wmk_prime * n_traps, n_traps, 1)];
-            double n_trapped_electrons_in_this_wmk = 
-                fill_fractions_in_this_wmk.sum() * watermark_volumes[i_wmk_prime]; 
-            print_v(0,"ThisRemov: %d volume: %g fill: %g n_electrons: %g test: %g \n", 
-                i_wmk_prime,watermark_volumes[i_wmk_prime],
-                fill_fractions_in_this_wmk.sum(),
-                n_trapped_electrons_in_this_wmk,test_value);
-*/            
-            
-            
-            watermark_volumes[i_wmk_prime - 1] += delta_volume_below;
-            
-            // If there is a higher watermark...
-            if ((i_wmk + 1) < (i_first_active_wmk + n_active_watermarks)) {
-                
-                
-
-/*                // Temp report
-                std::valarray<double> fill_fractions_in_next_wmk =
-                    watermark_fills[std::slice((i_wmk_prime+1) * n_traps, n_traps, 1)];
-                double n_trapped_electrons_in_next_wmk = 
-                    fill_fractions_in_next_wmk.sum() * watermark_volumes[i_wmk_prime+1]; 
-                print_v(0,"ReplaceBy: %d volume: %g fill: %g n_electrons: %g \n", 
-                    i_wmk_prime,watermark_volumes[i_wmk_prime+1],
-                    fill_fractions_in_next_wmk.sum(),
-                    n_trapped_electrons_in_next_wmk);
-*/
-         
-                
-                // ...increase its volume to compensate,
-                double delta_volume_above = watermark_volumes[i_wmk_prime] - delta_volume_below;
-                watermark_volumes[i_wmk_prime + 1] += delta_volume_above;
-                
-                // Prevent division by zero if Va = Vi = 0
-                if (watermark_volumes[i_wmk_prime + 1] > 0) {
-
-                    // ...reduce its fill fraction to preserve number of electrons, 
-                    double fill_multiplier = 
-                        (watermark_volumes[i_wmk_prime + 1] - delta_volume_above) /
-                        watermark_volumes[i_wmk_prime + 1];
-                    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                        watermark_fills[(i_wmk_prime + 1) * n_traps + i_trap] *= fill_multiplier;
-                    }
-                
-                } //else { print_v(0,"Problem watermark!\n"); } 
-                // These fill fractions should be zero (I hope), so don't change them anyway.
-                
-                // ...then shuffle all higher watermarks down to earlier watermark position
-                for (int j_wmk = i_wmk + 1;
-                    j_wmk < i_first_active_wmk + n_active_watermarks; j_wmk++) {
-                
-                    int j_wmk_prime = j_wmk - n_watermarks_pruned - 1;
-                    watermark_volumes[j_wmk_prime] = watermark_volumes[j_wmk_prime + 1];
-                    watermark_fills[std::slice(j_wmk_prime * n_traps, n_traps, 1)] = 
-                        watermark_fills[std::slice((j_wmk_prime + 1) * n_traps, n_traps, 1)];
-                }
-            }
-            n_watermarks_pruned += 1;          
-        } else {
-
-/*            // Temp report
-            std::valarray<double> fill_fractions_in_this_wmk =
-                watermark_fills[std::slice(i_wmk_prime * n_traps, n_traps, 1)];
-            double n_trapped_electrons_in_this_wmk = 
-                fill_fractions_in_this_wmk.sum() * watermark_volumes[i_wmk_prime]; 
-            print_v(0,"ThisStays: %d volume: %g fill: %g n_electrons: %g test: %g \n", 
-                i_wmk_prime,watermark_volumes[i_wmk_prime],
-                fill_fractions_in_this_wmk.sum(),
-                n_trapped_electrons_in_this_wmk,test_value);
- */       
-        }
-    }
-    n_active_watermarks -= n_watermarks_pruned;
-
-    // Empty the freed watermarks, ready for new ones
-    for (int i_wmk = i_first_active_wmk + n_active_watermarks;
-         i_wmk < i_first_active_wmk + n_active_watermarks + n_watermarks_pruned;
-         i_wmk++) {
-        watermark_volumes[i_wmk] = zeroth_watermark;
-        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] = empty_watermark;
-    }
-
-    // Count the total number of electrons in each watermark
-    print_v(3,"\n\n Fill fractions after prune (first %d n %d)\n",i_first_active_wmk, n_active_watermarks);
-    
-    //int flag;
-    //flag = std::cin.get();
-    //if(flag == 'q') { abort(); }
-}
-
-/*
-    Find the index of the watermark with a volume that reaches above the cloud.
-
-    Parameters
-    ----------
-    cloud_fractional_volume : double
-        The fractional volume the electron cloud reaches in the pixel well.
-
-    Returns
-    -------
-    i_wmk_above_cloud : int
-        The index of the first active watermark that reaches above the cloud.
-*/
-int TrapManagerBase::watermark_index_above_cloud(double cloud_fractional_volume) {
-    double cumulative_volume = zeroth_watermark;
-    
-    // Sum up the fractional volumes until surpassing the cloud volume
-    for (int i_wmk = i_first_active_wmk;
-         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-        // Total volume so far
-        cumulative_volume += watermark_volumes[i_wmk];
-
-        if (cumulative_volume > cloud_fractional_volume) return i_wmk;
-    }
-
-    // Cloud volume above all watermarks
-    return i_first_active_wmk + n_active_watermarks;
-}
-
-/*
-    How many electrons will be released from a watermark above the cloud,
-    during the next timestep.
-
-    Parameters
-    ----------
-    cloud_fractional_volume : double
-        The fractional volume the electron cloud reaches in the pixel well.
-
-    Returns
-    -------
-    i_wmk_above_cloud : int
-        The index of the first active watermark that reaches above the cloud.
-*/
-double TrapManagerBase::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
-    throw std::runtime_error( "this should get replaced for any trap type" );
-    return 0;
-}
-
-
-
-
-
-
-
-
-
-
-// ========
-// TrapManagerInstantCapture::
-// ========
-/*
-    Class TrapManagerInstantCapture.
-
-    For the standard release-then-instant-capture algorithm.
-
-    Attributes
-    ----------
-    any_non_uniform_traps : double
-        Default false, set to true if any of the traps have a non-uniform
-        distribution with volume, in which case some small extra steps are
-        required in the release and capture functions.
-*/
-TrapManagerInstantCapture::TrapManagerInstantCapture(
-    std::valarray<TrapInstantCapture> traps, int max_n_transfers, CCDPhase ccd_phase,
-    double dwell_time)
-    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
-
-    n_traps = traps.size();
-    trap_densities = std::valarray<double>(n_traps);
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        trap_densities[i_trap] = traps[i_trap].density;
-    }
-
-    any_non_uniform_traps = false;
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        if (traps[i_trap].fractional_volume_full_exposed > 0.0) {
-            any_non_uniform_traps = true;
-            break;
-        }
-    }
-}
-
-/*
-    Set the probabilities of traps being full after release.
-
-    Sets
-    ----
-    empty_probabilities_from_release : std::valarray<double>
-        The fraction of traps that were full that become empty after release.
-*/
-void TrapManagerInstantCapture::set_fill_probabilities() {
-    empty_probabilities_from_release = std::valarray<double>(0.0, n_traps);
-
-    // Set probabilities for each trap species
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        // Resulting empty fraction from release
-        empty_probabilities_from_release[i_trap] =
-            1.0 - exp(-traps[i_trap].release_rate * dwell_time);
-    }
-}
-
-/*
-    Call any necessary initialisation functions, etc.
-*/
-void TrapManagerInstantCapture::setup() {
-    initialise_trap_states();
-    set_fill_probabilities();
-}
-
-/*
-    Release electrons from traps and update the watermarks.
-
-    Returns
-    -------
-    n_electrons_released : double
-        The number of released electrons.
-
-    Updates
-    -------
-    watermark_volumes, watermark_fills : std::valarray<double>
-        The updated watermarks.
-*/
-double TrapManagerInstantCapture::n_electrons_released() {
-    double n_released = 0.0;
-    double n_released_this_wmk;
-    double frac_released;
-    double frac_exposed_per_volume;
-    double cumulative_volume = 0.0;
-    double next_cumulative_volume = 0.0;
-
-    // Each active watermark
-    for (int i_wmk = i_first_active_wmk;
-         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-        n_released_this_wmk = 0.0;
-
-        if (any_non_uniform_traps) {
-            // Total volume at the bottom and top of this watermark
-            cumulative_volume = next_cumulative_volume;
-            next_cumulative_volume += watermark_volumes[i_wmk];
-        }
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Fraction of released electrons
-            frac_released = watermark_fills[i_wmk * n_traps + i_trap] *
-                            empty_probabilities_from_release[i_trap];
-
-            // Account for non-uniform distribution with volume
-            if (traps[i_trap].fractional_volume_full_exposed == 0.0)
-                frac_exposed_per_volume = 1.0;
-            else
-                frac_exposed_per_volume =
-                    traps[i_trap].fraction_traps_exposed_per_fractional_volume(
-                        cumulative_volume, next_cumulative_volume);
-
-            // Number released
-            n_released_this_wmk += frac_released * frac_exposed_per_volume;
-
-            // Update the watermark fill fraction
-            watermark_fills[i_wmk * n_traps + i_trap] -= frac_released;
-        }
-
-        // Multiply by the watermark volume
-        n_released += n_released_this_wmk * watermark_volumes[i_wmk];
-    }
-
-    return n_released;
-}
-
-/*
-    How many electrons will be released from a watermark above the cloud,
-    during the next timestep.
-
-    Parameters
-    ----------
-    cloud_fractional_volume : double
-        The fractional volume the electron cloud reaches in the pixel well.
-
-    Returns
-    -------
-    i_wmk_above_cloud : int
-        The index of the first active watermark that reaches above the cloud.
-*/
-double TrapManagerInstantCapture::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
-    
-    //print_v(0,"IC child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
-
-    // Fraction of electrons released from each trap species
-    double frac_released_this_wmk = 0.0;
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        // Fraction of released electrons
-        frac_released_this_wmk +=
-            watermark_fills[i_wmk * n_traps + i_trap] *
-            empty_probabilities_from_release[i_trap];
-    }
-
-    // Multiply by the watermark volume
-    return frac_released_this_wmk * watermark_volumes[i_wmk];
-}
-
-/*
-    Modify the watermarks for normal capture.
-
-    Parameters
-    ----------
-    cloud_fractional_volume : double
-        The fractional volume the electron cloud reaches in the pixel well.
-
-    i_wmk_above_cloud : int
-        The index of the first active watermark that reaches above the cloud.
-
-    Updates
-    -------
-    watermark_volumes, watermark_fills : std::valarray<double>
-        The updated watermarks.
-*/
-void TrapManagerInstantCapture::update_watermarks_capture(
-    double cloud_fractional_volume, int i_wmk_above_cloud) {
-    // First capture
-    if (n_active_watermarks == 0) {
-        // Set fractional volume
-        watermark_volumes[0] = cloud_fractional_volume - zeroth_watermark;
-
-        // Set fill fractions for all trap species
-        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities;
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    // Cloud below all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk) {
-
-        // Make room for the new lowest watermark
-        if (i_first_active_wmk > 0) {
-            // Use existing room below the current first active watermark
-            i_first_active_wmk--;
-        } else {
-            // Copy-paste all higher watermarks up one to make room
-            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-                 i_wmk >= i_first_active_wmk; i_wmk--) {
-                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                        watermark_fills[i_wmk * n_traps + i_trap];
-                }
-            }
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-
-        // New watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            trap_densities;
-
-        // Update fractional volume of the partially overwritten watermark above
-        watermark_volumes[i_first_active_wmk + 1] -= (cloud_fractional_volume - zeroth_watermark);
-    }
-
-    // Cloud above all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
-        // Skip all overwritten watermarks
-        i_first_active_wmk = i_wmk_above_cloud - 1;
-
-        // New first watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            trap_densities;
-
-        // Update count of active watermarks
-        print_v(2,"Resetting watermarks\n");
-        n_active_watermarks = 1;
-    }
-
-    // Cloud between current watermarks
-    else {
-        // Update fractional volume of the partially overwritten watermark
-        double previous_total_volume = zeroth_watermark;
-        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-            previous_total_volume += watermark_volumes[i_wmk];
-        }
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
-
-        // Update count of active watermarks
-        n_active_watermarks += i_first_active_wmk - i_wmk_above_cloud + 1;
-
-        // Skip all overwritten watermarks
-        i_first_active_wmk = i_wmk_above_cloud - 1;
-
-        // New first watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            trap_densities;
-    }
-
-    return;
-}
-
-/*
-    Modify the watermarks for capture when not enough electrons are available.
-
-    Each watermark is partially filled a fraction (`enough`) of the way to full,
-    such that the resulting number of captured electrons is restricted to the
-    number actually available for capture.
-
-    This only becomes relevant for tiny numbers of electrons, where the cloud
-    can reach a disproportionately large volume in the pixel (reaching
-    correspondingly many traps) for the small amount of charge.
-
-    Parameters
-    ----------
-    cloud_fractional_volume : double
-        The fractional volume the electron cloud reaches in the pixel well.
-
-    i_wmk_above_cloud : int
-        The index of the first active watermark that reaches above the cloud.
-
-    enough : double
-        The amount of electrons available as a fraction of the number that
-        could be captured by the watermarks reached by the cloud volume.
-
-    Updates
-    -------
-    watermark_volumes, watermark_fills : std::valarray<double>
-        The updated watermarks.
-*/
-void TrapManagerInstantCapture::update_watermarks_capture_not_enough(
-    double cloud_fractional_volume, int i_wmk_above_cloud, double enough) {
-    // First capture
-    if (n_active_watermarks == 0) {
-        // Set fractional volume
-        watermark_volumes[0] = cloud_fractional_volume - zeroth_watermark;
-
-        // Set fill fractions for all trap species
-        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities * enough;
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    // Cloud below all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk) {
-
-        // Make room for the new lowest watermark
-        if (i_first_active_wmk > 0) {
-            // Use existing room below the current first active watermark
-            i_first_active_wmk--;
-        } else {
-            // Copy-paste all higher watermarks up one to make room
-            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-                 i_wmk >= i_first_active_wmk; i_wmk--) {
-                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                        watermark_fills[i_wmk * n_traps + i_trap];
-                }
-            }
-        }
-
-        // New watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            (std::valarray<double>)watermark_fills[std::slice(
-                (i_first_active_wmk + 1) * n_traps, n_traps, 1)] *
-                (1.0 - enough) +
-            enough * trap_densities; // is this wrong? the new watermark level should be created full
-
-        // Update fractional volume of the partially overwritten watermark above
-        watermark_volumes[i_first_active_wmk + 1] -= (cloud_fractional_volume - zeroth_watermark);
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    // Cloud above all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
-        // Cumulative volume of the watermark just below the new one
-        double volume_below = zeroth_watermark;
-        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-            volume_below += watermark_volumes[i_wmk];
-        }
-
-        // New watermark
-        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
-        //print_v(0,"Above cloud notenough. i %d wv %g cfv %g vb %g\n",i_wmk_above_cloud,watermark_volumes[i_wmk_above_cloud],cloud_fractional_volume,volume_below);
-        watermark_fills[std::slice(
-            (i_first_active_wmk + n_active_watermarks) * n_traps, n_traps, 1)] =
-            enough * trap_densities;
-
-        // Update all other watermarks part-way to full
-        for (int i_wmk = i_first_active_wmk;
-             i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
-                (std::valarray<double>)
-                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
-                    (1.0 - enough) +
-                enough * trap_densities;
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    // Cloud between current watermarks
-    else {
-        // Copy-paste all higher watermarks up one to make room
-        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-             i_wmk >= i_wmk_above_cloud; i_wmk--) {
-            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                    watermark_fills[i_wmk * n_traps + i_trap];
-            }
-        }
-
-        // Cumulative volume of the watermark just below the new one
-        double volume_below = zeroth_watermark;
-        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-            volume_below += watermark_volumes[i_wmk];
-        }
-
-        // New watermark
-        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
-
-        // Update volume of the partially overwritten watermark
-        //print_v(0,"wmv %g %g\n",watermark_volumes[i_wmk_above_cloud + 1],watermark_volumes[i_wmk_above_cloud + 1]-watermark_volumes[i_wmk_above_cloud]);
-        watermark_volumes[i_wmk_above_cloud + 1] -=
-            watermark_volumes[i_wmk_above_cloud];
-
-        // Update all watermarks, including the new one, part-way to full
-        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
-                (std::valarray<double>)
-                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
-                    (1.0 - enough) +
-                enough * trap_densities;
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    return;
-}
-
-/*
-    Capture electrons in traps and update the watermarks.
-
-    Parameters
-    ----------
-    n_free_electrons : double
-        The number of available electrons for trapping.
-
-    Returns
-    -------
-    n_electrons_captured : double
-        The number of captured electrons.
-
-    Updates
-    -------
-    watermark_volumes, watermark_fills : std::valarray<double>
-        The updated watermarks.
-*/
-double TrapManagerInstantCapture::n_electrons_captured(double n_free_electrons) {
-    // The fractional volume the electron cloud reaches in the pixel well
-    double cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-
-    // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
-
-    // ========
-    // Count the number of electrons that can be captured by each watermark
-    // ========
-    double n_captured = 0.0;
-    double n_captured_this_wmk;
-    double cumulative_volume = zeroth_watermark;
-    double next_cumulative_volume = zeroth_watermark;
-    double volume_top;
-    double frac_exposed_per_volume;
-
-    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
-
-    // Each active watermark
-    for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-        n_captured_this_wmk = 0.0;
-
-        // Total volume at the bottom and top of this watermark
-        cumulative_volume = next_cumulative_volume;
-        next_cumulative_volume += watermark_volumes[i_wmk];
-
-        // Capture up to the cloud volume for the last watermark
-        if (i_wmk == i_wmk_above_cloud) {
-            volume_top = cloud_fractional_volume;
-        }
-        // Capture up to the next watermark for watermarks below the cloud
-        else {
-            volume_top = next_cumulative_volume;
-        }
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Account for non-uniform distribution with volume
-            if (traps[i_trap].fractional_volume_full_exposed == 0.0)
-                frac_exposed_per_volume = 1.0;
-            else
-                frac_exposed_per_volume =
-                    traps[i_trap].fraction_traps_exposed_per_fractional_volume(
-                        cumulative_volume, volume_top);
-
-            n_captured_this_wmk +=
-                (trap_densities[i_trap] - watermark_fills[i_wmk * n_traps + i_trap]) *
-                frac_exposed_per_volume;
-        }
-
-        // Capture from the bottom to the top of the watermark
-        n_captured += n_captured_this_wmk * (volume_top - cumulative_volume);
-    }
-
-    // ========
-    // Update the watermarks
-    // ========
-    // Check enough available electrons to capture
-    //
-    // Would be really nice to do this including the express multiplier.
-    // That would also prevent image pixels from changing sign when zeroth_watermark<0.
-    //
-    double enough =
-        (n_captured == 0.0) ? 1.0 : abs(n_free_electrons / n_captured);
-    //print_v(0,"enough %g %g %g\n", enough, n_free_electrons, n_captured);
-
-    // Normal full capture
-    if ( enough >= 1.0) {
-        update_watermarks_capture(cloud_fractional_volume, i_wmk_above_cloud);
-    }
-    // Partial capture
-    else {
-        update_watermarks_capture_not_enough(
-            cloud_fractional_volume, i_wmk_above_cloud, enough);
-
-        n_captured *= enough;
-    }
-
-    return n_captured;
-}
-
-/*
-    Release and capture electrons and update the trap watermarks.
-
-    The interaction between traps and the charge cloud during its dwell time in
-    this pixel (and phase) is modelled as follows:
-    + First the previously filled traps release charge.
-    + This may update the number of free electrons in the cloud that are
-        available for capture.
-    + Then any unfilled traps within the cloud volume capture charge.
-    + In the rare case that not enough electrons are available for capture,
-        all traps within the cloud capture proportionally less charge to match.
-
-    Parameters
-    ----------
-    n_free_electrons : double
-        The number of available electrons for trapping.
-
-    Returns
-    -------
-    n_electrons_released_and_captured : double
-        The number of released electrons.
-
-    Updates
-    -------
-    watermark_volumes, watermark_fills : std::valarray<double>
-        The updated watermarks.
-*/
-double TrapManagerInstantCapture::n_electrons_released_and_captured(
-    double n_free_electrons) {
-
-    //print_v(0, "n_free_electrons  %g \n", n_free_electrons);
-    //if (n_free_electrons < zeroth_watermark) {
-    //    lower_zeroth_watermark(n_free_electrons);
-    //}
-
-    double n_released = n_electrons_released();
-    print_v(2, "n_electrons_released  %g \n", n_released);
-
-    double n_captured = n_electrons_captured(n_free_electrons + n_released);
-    print_v(2, "n_electrons_captured  %g \n", n_captured);
-
-    return n_released - n_captured;
-}
-
-
-
-
-
-
-
-
-
-
-
-
-
-// ========
-// TrapManagerSlowCapture::
-// ========
-/*
-    Class TrapManagerSlowCapture.
-
-    For traps with a non-zero capture time.
-*/
-TrapManagerSlowCapture::TrapManagerSlowCapture(
-    std::valarray<TrapSlowCapture> traps, int max_n_transfers, CCDPhase ccd_phase,
-    double dwell_time)
-    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
-
-    n_traps = traps.size();
-    trap_densities = std::valarray<double>(n_traps);
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        trap_densities[i_trap] = traps[i_trap].density;
-    }
-
-    // Overwrite default parameter values
-    n_watermarks_per_transfer = 2;
-}
-
-/*
-    Set the probabilities of traps being full after release and/or capture.
-
-    See Lindegren (1998) section 3.2.
-
-    Sets
-    ----
-    fill_probabilities_from_empty : std::valarray<double>
-        The fraction of traps that were empty that become full.
-
-    fill_probabilities_from_full : std::valarray<double>
-        The fraction of traps that were full that stay full.
-
-    empty_probabilities_from_release : std::valarray<double>
-        The fraction of traps that were full that become empty after release.
-*/
-void TrapManagerSlowCapture::set_fill_probabilities() {
-    double total_rate, exponential_factor;
-    fill_probabilities_from_empty = std::valarray<double>(0.0, n_traps);
-    fill_probabilities_from_full = std::valarray<double>(0.0, n_traps);
-    empty_probabilities_from_release = std::valarray<double>(0.0, n_traps);
-
-    // Set probabilities for each trap species
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        // Common factors
-        total_rate = traps[i_trap].capture_rate + traps[i_trap].release_rate;
-        exponential_factor = (1 - exp(-total_rate * dwell_time)) / total_rate;
-
-        // Resulting fill fraction for empty traps (Eqn. 20)
-        if (traps[i_trap].capture_rate == 0.0)
-            // Instant capture
-            fill_probabilities_from_empty[i_trap] = 1.0;
-        else
-            fill_probabilities_from_empty[i_trap] =
-                traps[i_trap].capture_rate * exponential_factor;
-
-        // Resulting fill fraction for filled traps (Eqn. 21)
-        if (traps[i_trap].capture_rate == 0.0)
-            // Instant (re-)capture
-            fill_probabilities_from_full[i_trap] = 1.0;
-        else
-            fill_probabilities_from_full[i_trap] =
-                1.0 - traps[i_trap].release_rate * exponential_factor;
-
-        // Resulting empty fraction from only release
-        empty_probabilities_from_release[i_trap] =
-            1.0 - exp(-traps[i_trap].release_rate * dwell_time);
-    }
-}
-
-/*
-    Call any necessary initialisation functions, etc.
-*/
-void TrapManagerSlowCapture::setup() {
-    initialise_trap_states();
-    set_fill_probabilities();
-}
-
-/*
-    Same as TrapManagerInstantCapture
-*/
-double TrapManagerSlowCapture::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
-    
-    //print_v(0,"SC child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
-
-    // Fraction of electrons released from each trap species
-    double frac_released_this_wmk = 0.0;
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        // Fraction of released electrons
-        frac_released_this_wmk +=
-            watermark_fills[i_wmk * n_traps + i_trap] *
-            empty_probabilities_from_release[i_trap];
-    }
-
-    // Multiply by the watermark volume
-    return frac_released_this_wmk * watermark_volumes[i_wmk];
-}
-/*
-    Release and capture electrons and update the trap watermarks.
-
-    The interaction between traps and the charge cloud during its dwell time in
-    this pixel (and phase) is modelled as follows:
-    + First any previously filled traps that are not within the cloud volume
-        release charge.
-    + This may update the number of free electrons in the cloud that are
-        available for capture.
-    + Then all traps within the cloud volume release and capture charge.
-    + In the rare case that not enough electrons are available for capture,
-        all traps within the cloud capture proportionally less charge to match.
-
-    Parameters
-    ----------
-    n_free_electrons : double
-        The number of available electrons for trapping.
-
-    Returns
-    -------
-    n_electrons_released_and_captured : double
-        The number of released electrons.
-
-    Updates
-    -------
-    watermark_volumes, watermark_fills : std::valarray<double>
-        The updated watermarks.
-*/
-double TrapManagerSlowCapture::n_electrons_released_and_captured(
-    double n_free_electrons) {
-    // The fractional volume the electron cloud reaches in the pixel well
-    double cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-
-    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
-
-    // Add a new watermark at the cloud height
-    if (cloud_fractional_volume > 0.0) {
-        // First capture
-        if (n_active_watermarks == 0) {
-            // Set fractional volume
-            watermark_volumes[0] = cloud_fractional_volume;
-
-            // Update count of active watermarks
-            n_active_watermarks++;
-            i_wmk_above_cloud++;
-        }
-
-        // Cloud above all current watermarks
-        else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
-            double previous_total_volume = 0.0;
-            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-                previous_total_volume += watermark_volumes[i_wmk];
-            }
-
-            // Set fractional volume
-            watermark_volumes[i_wmk_above_cloud] =
-                cloud_fractional_volume - previous_total_volume;
-
-            // Update count of active watermarks
-            n_active_watermarks++;
-            i_wmk_above_cloud++;
-        }
-
-        // Cloud between or below current watermarks
-        else {
-            // Original total volume of the to-be-split watermark
-            double previous_total_volume = 0.0;
-            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-                previous_total_volume += watermark_volumes[i_wmk];
-            }
-
-            // Copy-paste all higher watermarks up one to make room
-            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-                 i_wmk >= i_wmk_above_cloud; i_wmk--) {
-                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                        watermark_fills[i_wmk * n_traps + i_trap];
-                }
-            }
-
-            // Update count of active watermarks
-            n_active_watermarks++;
-            i_wmk_above_cloud++;
-
-            // New watermark
-            watermark_volumes[i_wmk_above_cloud - 1] =
-                watermark_volumes[i_wmk_above_cloud] -
-                (previous_total_volume - cloud_fractional_volume);
-
-            // Update fractional volume of the partially overwritten watermark
-            watermark_volumes[i_wmk_above_cloud] =
-                previous_total_volume - cloud_fractional_volume;
-        }
-    }
-
-    // ========
-    // Release electrons from any watermarks above the cloud
-    // ========
-    double n_released = 0.0;
-    double frac_released_this_wmk;
-    double frac_released_this_wmk_this_trap;
-    double cumulative_volume = 0.0;
-    double next_cumulative_volume = 0.0;
-
-    // Count the released electrons and update the watermarks
-    for (int i_wmk = i_wmk_above_cloud;
-         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-        frac_released_this_wmk = 0.0;
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Fraction of released electrons
-            frac_released_this_wmk_this_trap = 
-                watermark_fills[i_wmk * n_traps + i_trap] *
-                empty_probabilities_from_release[i_trap];
-
-            // Update the watermark fill fraction
-            watermark_fills[i_wmk * n_traps + i_trap] -= 
-                frac_released_this_wmk_this_trap;
-            
-            // Keep stock of newly free (fraction of) electrons
-            frac_released_this_wmk += frac_released_this_wmk_this_trap;
-        }
-
-        // Multiply by the watermark volume
-        n_released += frac_released_this_wmk * watermark_volumes[i_wmk];
-    }
-
-    // Update the electron cloud. If nothing was released then it still reaches the
-    // watermark at its height, which the rounded sum of volumes may not reproduce.
-    if (n_released > 0.0) {
-        n_free_electrons += n_released;
-        cloud_fractional_volume =
-            ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-        i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
-    }
-
-    // ========
-    // Capture and release electrons below the cloud
-    // ========
-    // No capture
-    if (cloud_fractional_volume == 0.0) return n_released;
-
-    // Add a new watermark at the new cloud height
-    if (n_released > 0.0 &&
-        i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
-        // Cloud above all current watermarks
-        double previous_total_volume = 0.0;
-        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-            previous_total_volume += watermark_volumes[i_wmk];
-        }
-        watermark_volumes[i_wmk_above_cloud] =
-            cloud_fractional_volume - previous_total_volume;
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-        i_wmk_above_cloud++;
-    } else if (n_released > 0.0) {
-        // Original total volume of the watermark
-        double previous_total_volume = 0.0;
-        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-            previous_total_volume += watermark_volumes[i_wmk];
-        }
-
-        // Copy-paste any higher watermarks up one to make room
-        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-             i_wmk >= i_wmk_above_cloud; i_wmk--) {
-            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                    watermark_fills[i_wmk * n_traps + i_trap];
-            }
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-        i_wmk_above_cloud++;
-
-        // New watermark
-        watermark_volumes[i_wmk_above_cloud - 1] =
-            watermark_volumes[i_wmk_above_cloud] -
-            (previous_total_volume - cloud_fractional_volume);
-
-        // Update fractional volume of the partially overwritten watermark
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
-    }
-
-    // Release and capture electrons in each watermark below the cloud
-    double n_released_and_captured = 0.0;
-    double n_released_and_captured_this_wmk = 0.0;
-    double new_fill;
-    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-        n_released_and_captured_this_wmk = 0.0;
-
-        // Total volume at the bottom and top of this watermark
-        cumulative_volume = next_cumulative_volume;
-        next_cumulative_volume += watermark_volumes[i_wmk];
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Fraction of full traps that remain full plus fraction of empty
-            // traps that become full
-            new_fill = fill_probabilities_from_full[i_trap] *
-                           watermark_fills[i_wmk * n_traps + i_trap] +
-                       fill_probabilities_from_empty[i_trap] *
-                           (trap_densities[i_trap] -
-                            watermark_fills[i_wmk * n_traps + i_trap]);
-
-            // Net released minus captured electrons
-            n_released_and_captured_this_wmk +=
-                watermark_fills[i_wmk * n_traps + i_trap] - new_fill;
-        }
-
-        // Multiply by the watermark volume
-        n_released_and_captured += n_released_and_captured_this_wmk *
-                                   (next_cumulative_volume - cumulative_volume);
-    }
-
-    // ========
-    // Update the watermarks
-    // ========
-    // Check enough available electrons to capture, if more captured than released
-    double enough;
-    if (n_released_and_captured < 0.0)
-        enough = n_free_electrons / -n_released_and_captured;
-    else
-        enough = 1.0;
-
-    // Update the watermarks for release and capture below the cloud
-    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-        n_released_and_captured_this_wmk = 0.0;
-
-        // Total volume at the bottom and top of this watermark
-        cumulative_volume = next_cumulative_volume;
-        next_cumulative_volume += watermark_volumes[i_wmk];
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Fraction of full traps that remain full plus fraction of empty
-            // traps that become full
-            new_fill = fill_probabilities_from_full[i_trap] *
-                           watermark_fills[i_wmk * n_traps + i_trap] +
-                       fill_probabilities_from_empty[i_trap] *
-                           (trap_densities[i_trap] -
-                            watermark_fills[i_wmk * n_traps + i_trap]);
-
-            // Modify for not-enough capture
-            if (enough < 1.0) {
-                new_fill = enough * new_fill +
-                           (1.0 - enough) * watermark_fills[i_wmk * n_traps + i_trap];
-            }
-
-            // Update watermark fill fractions
-            watermark_fills[i_wmk * n_traps + i_trap] = new_fill;
-        }
-    }
-
-    if (enough < 1.0) n_released_and_captured *= enough;
-
-    return n_released + n_released_and_captured;
-}
-
-
-
-
-
-// ========
-// TrapManagerInstantCaptureContinuum::
-// ========
-/*
-    Class TrapManagerInstantCaptureContinuum.
-
-    For trap species with continous distributions of release timescales, and
-    the standard release-then-instant-capture algorithm.
-
-    For release, the watermark fill fractions are converted into the total time
-    elapsed since the traps were filled in order to update them.
-
-    Capture is identical to instant-capture traps.
-
-    Attributes (in addition to TrapManagerBase)
-    ----------
-    time_min : double
-    time_max : double
-        The minimum and maximum elapsed times to set the interpolation table
-        limits. See prep_fill_fraction_and_time_elapsed_tables().
-
-    n_intp : int
-        The number of interpolation values in the arrays. Currently set here
-        manually. See prep_fill_fraction_and_time_elapsed_tables().
-*/
-TrapManagerInstantCaptureContinuum::TrapManagerInstantCaptureContinuum(
-    std::valarray<TrapInstantCaptureContinuum> traps, int max_n_transfers,
-    CCDPhase ccd_phase, double dwell_time)
-    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
-
-    n_traps = traps.size();
-    trap_densities = std::valarray<double>(n_traps);
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        trap_densities[i_trap] = traps[i_trap].density;
-    }
-
-    time_min = dwell_time;
-    time_max = max_n_transfers * dwell_time;
-    n_intp = 1000;
-}
-
-/*
-    Set the interpolation table values for converting between fill fractions
-    and elapsed times.
-
-    See TrapInstantCaptureContinuum.prep_fill_fraction_and_time_elapsed_tables().
-*/
-void TrapManagerInstantCaptureContinuum::prepare_interpolation_tables() {
-    // Prepare interpolation tables for each trap species
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        traps[i_trap].prep_fill_fraction_and_time_elapsed_tables(
-            time_min, time_max, n_intp);
-    }
-}
-
-/*
-    Call any necessary initialisation functions, etc.
-*/
-void TrapManagerInstantCaptureContinuum::setup() {
-    initialise_trap_states();
-    prepare_interpolation_tables();
-}
-
-/*
-    How many electrons will be released from a watermark above the cloud,
-    during the next timestep.
-
-    Parameters
-    ----------
-    cloud_fractional_volume : double
-        The fractional volume the electron cloud reaches in the pixel well.
-
-    Returns
-    -------
-    i_wmk_above_cloud : int
-        The index of the first active watermark that reaches above the cloud.
-*/
-double TrapManagerInstantCaptureContinuum::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
-    
-//    print_v(0,"ICCR child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
-//    return 0;
-    // Fraction of electrons released from each trap species
-    double frac_released_this_wmk = 0.0;
-    double fill_initial;
-    double time_initial;
-    double fill_final;
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        // Initial fill and conversion to elapsed time
-        if (trap_densities[i_trap] == 0.0) continue;
-        fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
-        time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-            fill_initial / trap_densities[i_trap]);
-
-        // New fill fraction from updated elapsed time
-        fill_final = trap_densities[i_trap] *
-            traps[i_trap].fill_fraction_from_time_elapsed_table(
-                time_initial + dwell_time);
-
-        // Number released from difference in fill fractions
-        frac_released_this_wmk += fill_initial - fill_final;
-    }
-
-    // Multiply by the watermark volume
-    return frac_released_this_wmk * watermark_volumes[i_wmk];
-
-}
-/*
-    Same as TrapManagerInstantCapture, except for the conversion between fill
-    fractions and elapsed times to update the trap states.
-*/
-double TrapManagerInstantCaptureContinuum::n_electrons_released() {
-    double n_released = 0.0;
-    double n_released_this_wmk;
-    double fill_initial;
-    double time_initial;
-
-    // Each active watermark
-    for (int i_wmk = i_first_active_wmk;
-         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-        n_released_this_wmk = 0.0;
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Initial fill and conversion to elapsed time
-            if (trap_densities[i_trap] == 0.0) continue;
-            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
-            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-                fill_initial / trap_densities[i_trap]);
-
-            // New fill fraction from updated elapsed time
-            watermark_fills[i_wmk * n_traps + i_trap] =
-                trap_densities[i_trap] *
-                traps[i_trap].fill_fraction_from_time_elapsed_table(
-                    time_initial + dwell_time);
-
-            // Number released from difference in fill fractions
-            n_released_this_wmk +=
-                fill_initial - watermark_fills[i_wmk * n_traps + i_trap];
-        }
-
-        // Multiply by the watermark volume
-        n_released += n_released_this_wmk * watermark_volumes[i_wmk];
-    }
-
-    return n_released;
-}
-
-/*
-    Same as TrapManagerInstantCapture.
-*/
-void TrapManagerInstantCaptureContinuum::update_watermarks_capture(
-    double cloud_fractional_volume, int i_wmk_above_cloud) {
-    // First capture
-    if (n_active_watermarks == 0) {
-        // Set fractional volume
-        watermark_volumes[0] = cloud_fractional_volume;
-
-        // Set fill fractions for all trap species
-        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities;
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    // Cloud below all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk) {
-        // Make room for the new lowest watermark
-        if (i_first_active_wmk > 0) {
-            // Use existing room below the current first active watermark
-            i_first_active_wmk--;
-        } else {
-            // Copy-paste all higher watermarks up one to make room
-            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-                 i_wmk >= i_first_active_wmk; i_wmk--) {
-                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                        watermark_fills[i_wmk * n_traps + i_trap];
-                }
-            }
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-
-        // New watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            trap_densities;
-
-        // Update fractional volume of the partially overwritten watermark above
-        watermark_volumes[i_first_active_wmk + 1] -= cloud_fractional_volume;
-    }
-
-    // Cloud above all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
-        // Skip all overwritten watermarks
-        i_first_active_wmk = i_wmk_above_cloud - 1;
-
-        // New first watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            trap_densities;
-
-        // Update count of active watermarks
-        n_active_watermarks = 1;
-    }
-
-    // Cloud between current watermarks
-    else {
-        // Update fractional volume of the partially overwritten watermark
-        double previous_total_volume = 0.0;
-        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-            previous_total_volume += watermark_volumes[i_wmk];
-        }
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
-
-        // Update count of active watermarks
-        n_active_watermarks += i_first_active_wmk - i_wmk_above_cloud + 1;
-
-        // Skip all overwritten watermarks
-        i_first_active_wmk = i_wmk_above_cloud - 1;
-
-        // New first watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            trap_densities;
-    }
-
-    return;
-}
-
-/*
-    Same as TrapManagerInstantCapture.
-*/
-void TrapManagerInstantCaptureContinuum::update_watermarks_capture_not_enough(
-    double cloud_fractional_volume, int i_wmk_above_cloud, double enough) {
-    // First capture
-    if (n_active_watermarks == 0) {
-        // Set fractional volume
-        watermark_volumes[0] = cloud_fractional_volume;
-
-        // Set fill fractions for all trap species
-        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities * enough;
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    // Cloud below all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk) {
-        // Make room for the new lowest watermark
-        if (i_first_active_wmk > 0) {
-            // Use existing room below the current first active watermark
-            i_first_active_wmk--;
-        } else {
-            // Copy-paste all higher watermarks up one to make room
-            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-                 i_wmk >= i_first_active_wmk; i_wmk--) {
-                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                        watermark_fills[i_wmk * n_traps + i_trap];
-                }
-            }
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-
-        // New watermark
-        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
-        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
-            (std::valarray<double>)watermark_fills[std::slice(
-                (i_first_active_wmk + 1) * n_traps, n_traps, 1)] *
-                (1.0 - enough) +
-            enough * trap_densities;
-
-        // Update fractional volume of the partially overwritten watermark above
-        watermark_volumes[i_first_active_wmk + 1] -= cloud_fractional_volume;
-    }
-
-    // Cloud above all current watermarks
-    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
-        // Cumulative volume of the watermark just below the new one
-        double volume_below = 0.0;
-        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-            volume_below += watermark_volumes[i_wmk];
-        }
-
-        // New watermark
-        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
-        watermark_fills[std::slice(
-            (i_first_active_wmk + n_active_watermarks) * n_traps, n_traps, 1)] =
-            enough * trap_densities;
-
-        // Update all other watermarks part-way to full
-        for (int i_wmk = i_first_active_wmk;
-             i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
-                (std::valarray<double>)
-                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
-                    (1.0 - enough) +
-                enough * trap_densities;
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    // Cloud between current watermarks
-    else {
-        // Copy-paste all higher watermarks up one to make room
-        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-             i_wmk >= i_wmk_above_cloud; i_wmk--) {
-            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                    watermark_fills[i_wmk * n_traps + i_trap];
-            }
-        }
-
-        // Cumulative volume of the watermark just below the new one
-        double volume_below = 0.0;
-        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-            volume_below += watermark_volumes[i_wmk];
-        }
-
-        // New watermark
-        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
-
-        // Update volume of the partially overwritten watermark
-        watermark_volumes[i_wmk_above_cloud + 1] -=
-            watermark_volumes[i_wmk_above_cloud];
-
-        // Update all watermarks, including the new one, part-way to full
-        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
-                (std::valarray<double>)
-                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
-                    (1.0 - enough) +
-                enough * trap_densities;
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-    }
-
-    return;
-}
-
-/*
-    Same as TrapManagerInstantCapture.
-*/
-double TrapManagerInstantCaptureContinuum::n_electrons_captured(
-    double n_free_electrons) {
-    // The fractional volume the electron cloud reaches in the pixel well
-    double cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-
-    // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
-
-    // ========
-    // Count the number of electrons that can be captured by each watermark
-    // ========
-    double n_captured = 0.0;
-    double n_captured_this_wmk;
-    double cumulative_volume = 0.0;
-    double next_cumulative_volume = 0.0;
-
-    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
-
-    // Each active watermark
-    for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-        n_captured_this_wmk = 0.0;
-
-        // Total volume at the bottom and top of this watermark
-        cumulative_volume = next_cumulative_volume;
-        next_cumulative_volume += watermark_volumes[i_wmk];
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            n_captured_this_wmk +=
-                trap_densities[i_trap] - watermark_fills[i_wmk * n_traps + i_trap];
-        }
-
-        // Capture from the bottom of the last watermark up to the cloud volume
-        if (i_wmk == i_wmk_above_cloud) {
-            n_captured +=
-                n_captured_this_wmk * (cloud_fractional_volume - cumulative_volume);
-        }
-        // Capture from the bottom to top of watermark volumes below the cloud
-        else {
-            n_captured +=
-                n_captured_this_wmk * (next_cumulative_volume - cumulative_volume);
-        }
-    }
-
-    // ========
-    // Update the watermarks
-    // ========
-    // Check enough available electrons to capture
-    double enough = (n_captured == 0.0) ? 1.0 : n_free_electrons / n_captured;
-
-    // Normal full capture
-    if (enough >= 1.0) {
-        update_watermarks_capture(cloud_fractional_volume, i_wmk_above_cloud);
-    }
-    // Partial capture
-    else {
-        update_watermarks_capture_not_enough(
-            cloud_fractional_volume, i_wmk_above_cloud, enough);
-
-        n_captured *= enough;
-    }
-
-    return n_captured;
-}
-
-/*
-    Same as TrapManagerInstantCapture.
-*/
-double TrapManagerInstantCaptureContinuum::n_electrons_released_and_captured(
-    double n_free_electrons) {
-
-    double n_released = n_electrons_released();
-    print_v(2, "n_electrons_released  %g \n", n_released);
-
-    double n_captured = n_electrons_captured(n_free_electrons + n_released);
-    print_v(2, "n_electrons_captured  %g \n", n_captured);
-
-    return n_released - n_captured;
-}
-
-
-
-
-// ========
-// TrapManagerSlowCaptureContinuum::
-// ========
-/*
-    Class TrapManagerSlowCaptureContinuum.
-
-    For traps with a non-instant capture time and a continuum (log-normal
-    distribution) of release timescales.
-
-    Attributes (where different to TrapManagerInstantCaptureContinuum)
-    ----------
-    time_min : double
-        Unlike instant capture, need a much smaller minimum time so that the
-        interpolation tables cover the not-completely-filled traps from capture.
-*/
-TrapManagerSlowCaptureContinuum::TrapManagerSlowCaptureContinuum(
-    std::valarray<TrapSlowCaptureContinuum> traps, int max_n_transfers,
-    CCDPhase ccd_phase, double dwell_time)
-    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
-
-    n_traps = traps.size();
-    trap_densities = std::valarray<double>(n_traps);
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        trap_densities[i_trap] = traps[i_trap].density;
-    }
-
-    time_min = dwell_time / 30;
-    time_max = max_n_transfers * dwell_time;
-    n_intp = 1000;
-
-    // Overwrite default parameter values
-    n_watermarks_per_transfer = 2;
-}
-
-/*
-    Set the interpolation table values for converting between fill fractions
-    and elapsed times.
-
-    See TrapManagerSlowCaptureContinuum.prep_fill_fraction_and_time_elapsed_tables()
-    and prep_fill_fraction_after_slow_capture_tables().
-*/
-void TrapManagerSlowCaptureContinuum::prepare_interpolation_tables() {
-    // Prepare interpolation tables for each trap species
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        traps[i_trap].prep_fill_fraction_and_time_elapsed_tables(
-            time_min, time_max, n_intp);
-        traps[i_trap].prep_fill_fraction_after_slow_capture_tables(
-            dwell_time, time_min, time_max, n_intp);
-    }
-}
-
-/*
-    Call any necessary initialisation functions, etc.
-*/
-void TrapManagerSlowCaptureContinuum::setup() {
-    initialise_trap_states();
-    prepare_interpolation_tables();
-}
-
-/*
-    Same as InstantCaptureContinuum
-*/
-double TrapManagerSlowCaptureContinuum::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
-    
-    //print_v(0,"SCCR child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
-    
-    // Fraction of electrons released from each trap species
-    double frac_released_this_wmk = 0.0;
-    double fill_initial;
-    double time_initial;
-    double fill_final;
-    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-        // Initial fill and conversion to elapsed time
-        if (trap_densities[i_trap] == 0.0) continue;
-        fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
-        time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-            fill_initial / trap_densities[i_trap]);
-
-        // New fill fraction from updated elapsed time
-        fill_final = trap_densities[i_trap] *
-            traps[i_trap].fill_fraction_from_time_elapsed_table(
-                time_initial + dwell_time);
-
-        // Number released from difference in fill fractions
-        frac_released_this_wmk += fill_initial - fill_final;
-    }
-
-    // Multiply by the watermark volume
-    return frac_released_this_wmk * watermark_volumes[i_wmk];
-}
-/*
-    Same as TrapManagerSlowCapture, except for the conversion between fill
-    fractions and elapsed times to update the trap states.
-*/
-double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
-    double n_free_electrons) {
-    // The fractional volume the electron cloud reaches in the pixel well
-    double cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-
-    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
-
-    // Add a new watermark at the cloud height
-    if (cloud_fractional_volume > 0.0) {
-        // First capture
-        if (n_active_watermarks == 0) {
-            // Set fractional volume
-            watermark_volumes[0] = cloud_fractional_volume;
-
-            // Update count of active watermarks
-            n_active_watermarks++;
-            i_wmk_above_cloud++;
-        }
-
-        // Cloud above all current watermarks
-        else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
-            double previous_total_volume = 0.0;
-            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-                previous_total_volume += watermark_volumes[i_wmk];
-            }
-
-            // Set fractional volume
-            watermark_volumes[i_wmk_above_cloud] =
-                cloud_fractional_volume - previous_total_volume;
-
-            // Update count of active watermarks
-            n_active_watermarks++;
-            i_wmk_above_cloud++;
-        }
-
-        // Cloud between or below current watermarks
-        else {
-            // Original total volume of the to-be-split watermark
-            double previous_total_volume = 0.0;
-            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-                previous_total_volume += watermark_volumes[i_wmk];
-            }
-
-            // Copy-paste all higher watermarks up one to make room
-            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-                 i_wmk >= i_wmk_above_cloud; i_wmk--) {
-                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                        watermark_fills[i_wmk * n_traps + i_trap];
-                }
-            }
-
-            // Update count of active watermarks
-            n_active_watermarks++;
-            i_wmk_above_cloud++;
-
-            // New watermark
-            watermark_volumes[i_wmk_above_cloud - 1] =
-                watermark_volumes[i_wmk_above_cloud] -
-                (previous_total_volume - cloud_fractional_volume);
-
-            // Update fractional volume of the partially overwritten watermark
-            watermark_volumes[i_wmk_above_cloud] =
-                previous_total_volume - cloud_fractional_volume;
-        }
-    }
-
-    // ========
-    // Release electrons from any watermarks above the cloud
-    // ========
-    double n_released = 0.0;
-    double n_released_this_wmk = 0.0;
-    double fill_initial;
-    double time_initial;
-    double cumulative_volume = 0.0;
-    double next_cumulative_volume = 0.0;
-
-    // Count the released electrons and update the watermarks
-    // Same as TrapManagerInstantCaptureContinuum.n_electrons_released()
-    for (int i_wmk = i_wmk_above_cloud;
-         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
-        n_released_this_wmk = 0.0;
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Initial fill and conversion to elapsed time
-            if (trap_densities[i_trap] == 0.0) continue;
-            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
-            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-                fill_initial / trap_densities[i_trap]);
-
-            // New fill fraction from updated elapsed time
-            watermark_fills[i_wmk * n_traps + i_trap] =
-                trap_densities[i_trap] *
-                traps[i_trap].fill_fraction_from_time_elapsed_table(
-                    time_initial + dwell_time);
-
-            // Number released from difference in fill fractions
-            n_released_this_wmk +=
-                fill_initial - watermark_fills[i_wmk * n_traps + i_trap];
-        }
-
-        // Multiply by the watermark volume
-        n_released += n_released_this_wmk * watermark_volumes[i_wmk];
-    }
-
-    // Update the electron cloud. If nothing was released then it still reaches the
-    // watermark at its height, which the rounded sum of volumes may not reproduce.
-    if (n_released > 0.0) {
-        n_free_electrons += n_released;
-        cloud_fractional_volume =
-            ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-        i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
-    }
-
-    // ========
-    // Capture and release electrons below the cloud
-    // ========
-    // No capture
-    if (cloud_fractional_volume == 0.0) return n_released;
-
-    // Add a new watermark at the new cloud height
-    if (n_released > 0.0 &&
-        i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
-        // Cloud above all current watermarks
-        double previous_total_volume = 0.0;
-        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-            previous_total_volume += watermark_volumes[i_wmk];
-        }
-        watermark_volumes[i_wmk_above_cloud] =
-            cloud_fractional_volume - previous_total_volume;
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-        i_wmk_above_cloud++;
-    } else if (n_released > 0.0) {
-        // Original total volume of the watermark
-        double previous_total_volume = 0.0;
-        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-            previous_total_volume += watermark_volumes[i_wmk];
-        }
-
-        // Copy-paste any higher watermarks up one to make room
-        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-             i_wmk >= i_wmk_above_cloud; i_wmk--) {
-            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
-            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
-                    watermark_fills[i_wmk * n_traps + i_trap];
-            }
-        }
-
-        // Update count of active watermarks
-        n_active_watermarks++;
-        i_wmk_above_cloud++;
-
-        // New watermark
-        watermark_volumes[i_wmk_above_cloud - 1] =
-            watermark_volumes[i_wmk_above_cloud] -
-            (previous_total_volume - cloud_fractional_volume);
-
-        // Update fractional volume of the partially overwritten watermark
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
-    }
-
-    // Release and capture electrons in each watermark below the cloud
-    double n_released_and_captured = 0.0;
-    double n_released_and_captured_this_wmk = 0.0;
-    double new_fill;
-    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-        n_released_and_captured_this_wmk = 0.0;
-
-        // Total volume at the bottom and top of this watermark
-        cumulative_volume = next_cumulative_volume;
-        next_cumulative_volume += watermark_volumes[i_wmk];
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Initial fill and conversion to elapsed time
-            if (trap_densities[i_trap] == 0.0) continue;
-            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
-            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-                fill_initial / trap_densities[i_trap]);
-
-            // Integrate over the fraction of full traps that remain full plus
-            // fraction of empty traps that become full over the distribution
-            new_fill =
-                traps[i_trap].fill_fraction_after_slow_capture_table(time_initial);
-
-            // Include the trap density
-            new_fill *= trap_densities[i_trap];
-
-            // Net released minus captured electrons
-            n_released_and_captured_this_wmk +=
-                watermark_fills[i_wmk * n_traps + i_trap] - new_fill;
-        }
-
-        // Multiply by the watermark volume
-        n_released_and_captured += n_released_and_captured_this_wmk *
-                                   (next_cumulative_volume - cumulative_volume);
-    }
-
-    // ========
-    // Update the watermarks
-    // ========
-    // Check enough available electrons to capture, if more captured than released
-    double enough;
-    if (n_released_and_captured < 0.0)
-        enough = n_free_electrons / -n_released_and_captured;
-    else
-        enough = 1.0;
-
-    // Update the watermarks for release and capture below the cloud
-    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
-        n_released_and_captured_this_wmk = 0.0;
-
-        // Total volume at the bottom and top of this watermark
-        cumulative_volume = next_cumulative_volume;
-        next_cumulative_volume += watermark_volumes[i_wmk];
-
-        // Each trap species
-        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
-            // Initial fill and conversion to elapsed time
-            if (trap_densities[i_trap] == 0.0) continue;
-            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
-            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-                fill_initial / trap_densities[i_trap]);
-
-            // Integrate over the fraction of full traps that remain full plus
-            // fraction of empty traps that become full over the distribution
-            new_fill =
-                traps[i_trap].fill_fraction_after_slow_capture_table(time_initial);
-
-            // Include the trap density
-            new_fill *= trap_densities[i_trap];
-
-            // Modify for not-enough capture
-            if (enough < 1.0) {
-                new_fill = enough * new_fill +
-                           (1.0 - enough) * watermark_fills[i_wmk * n_traps + i_trap];
-            }
-
-            // Update watermark fill fractions
-            watermark_fills[i_wmk * n_traps + i_trap] = new_fill;
-        }
-    }
-
-    if (enough < 1.0) n_released_and_captured *= enough;
-
-    return n_released + n_released_and_captured;
-}
-
-// ========
-// TrapManagerManager::
-// ========
-/*
-    Class TrapManagerManager.
-
-    Handles the one or multiple trap managers required for models with a mix of
-    trap species and/or multiphase clocking.
-
-    Each individual trap manager tracks the states of one or more trap species.
-    A different trap manager is required for any traps of different types, and
-    separate trap managers are also required for each phase in multiphase
-    clocking, which corresponds to an independent population of traps.
-
-    On declaration, automatically creates the trap managers for each phase
-    and/or watermark type and initialises their watermark arrays. The trap
-    managers of each type are held in the trap_managers_* arrays, each
-    containing one manager of that type for each phase.
-
-    Also, if relevant, modifies the trap managers' trap densities to account for
-    the fraction of traps in different CCD pixel phases.
-
-    Parameters
-    ----------
-    traps_ic : std::valarray<TrapInstantCapture>
-    traps_sc : std::valarray<TrapSlowCapture>
-    traps_ic_co : std::valarray<TrapInstantCaptureContinuum>
-    traps_sc_co : std::valarray<TrapSlowCaptureContinuum>
-        The arrays of trap species, one for each type (which can be empty).
-
-    max_n_transfers : int
-        Same as TrapManagerBase. Is modified internally to include any extra
-        intra-pixel transfers for multiphase clocking.
-
-    ccd : CCD
-        Parameters to describe how electrons fill the volume inside (all phases
-        of) a pixel in a CCD detector.
-
-    dwell_times : std::valarray<double>
-        The time between steps in the clocking sequence, as stored by an ROE
-        object.
-
-        Note: currently assumes the dwell time in each phase is the same for all
-        steps, which might not be true in sequences with n_steps > n_phases.
-
-    Attributes
-    ----------
-    n_traps_ic : int
-    n_traps_sc : int
-    n_traps_ic_co : int
-    n_traps_sc_co : int
-        The number of trap species (if any) of each watermark type.
-
-    trap_managers_ic : std::valarray<TrapManagerInstantCapture>
-    trap_managers_sc : std::valarray<TrapManagerSlowCapture>
-    trap_managers_ic_co : std::valarray<TrapManagerInstantCaptureContinuum>
-    trap_managers_sc_co :
-   std::valarray<TrapManagerSlowCaptureContinuum> For each watermark type, the list of
-   trap manager objects for each phase. Ignored if the corresponding n_*_traps is 0.
-*/
-TrapManagerManager::TrapManagerManager(
-    std::valarray<TrapInstantCapture>& traps_ic,
-    std::valarray<TrapSlowCapture>& traps_sc,
-    std::valarray<TrapInstantCaptureContinuum>& traps_ic_co,
-    std::valarray<TrapSlowCaptureContinuum>& traps_sc_co, int max_n_transfers, CCD ccd,
-    std::valarray<double>& dwell_times)
-    : traps_ic(traps_ic),
-      traps_sc(traps_sc),
-      traps_ic_co(traps_ic_co),
-      traps_sc_co(traps_sc_co),
-      max_n_transfers(max_n_transfers),
-      ccd(ccd) {
-
-    // The number of trap species (if any) of each watermark type
-    n_traps_ic = traps_ic.size();
-    n_traps_sc = traps_sc.size();
-    n_traps_ic_co = traps_ic_co.size();
-    n_traps_sc_co = traps_sc_co.size();
-
-    // Account for the number of clock-sequence steps for the maximum transfers
-    max_n_transfers *= dwell_times.size();
-    this->max_n_transfers = max_n_transfers;
-
-    // ========
-    // Set up the trap manager for each phase, for each watermark type
-    // ========
-    if (n_traps_ic > 0) {
-        trap_managers_ic.resize(ccd.n_phases);
-
-        // Initialise manager and watermarks for each phase
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic[phase_index] = TrapManagerInstantCapture(
-                traps_ic, max_n_transfers, ccd.phases[phase_index],
-                dwell_times[phase_index]);
-
-            // Modify the trap densities in different phases
-            trap_managers_ic[phase_index].trap_densities *=
-                ccd.fraction_of_traps_per_phase[phase_index];
-
-            trap_managers_ic[phase_index].setup();
-        }
-    }
-
-    if (n_traps_sc > 0) {
-        trap_managers_sc.resize(ccd.n_phases);
-
-        // Initialise manager and watermarks for each phase
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc[phase_index] = TrapManagerSlowCapture(
-                traps_sc, max_n_transfers, ccd.phases[phase_index],
-                dwell_times[phase_index]);
-
-            // Modify the trap densities in different phases
-            trap_managers_sc[phase_index].trap_densities *=
-                ccd.fraction_of_traps_per_phase[phase_index];
-
-            trap_managers_sc[phase_index].setup();
-        }
-    }
-
-    if (n_traps_ic_co > 0) {
-        trap_managers_ic_co.resize(ccd.n_phases);
-
-        // Initialise manager and watermarks for each phase
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic_co[phase_index] = TrapManagerInstantCaptureContinuum(
-                traps_ic_co, max_n_transfers, ccd.phases[phase_index],
-                dwell_times[phase_index]);
-
-            // Modify the trap densities in different phases
-            trap_managers_ic_co[phase_index].trap_densities *=
-                ccd.fraction_of_traps_per_phase[phase_index];
-
-            trap_managers_ic_co[phase_index].setup();
-        }
-    }
-
-    if (n_traps_sc_co > 0) {
-        trap_managers_sc_co.resize(ccd.n_phases);
-
-        // Initialise manager and watermarks for each phase
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc_co[phase_index] = TrapManagerSlowCaptureContinuum(
-                traps_sc_co, max_n_transfers, ccd.phases[phase_index],
-                dwell_times[phase_index]);
-
-            // Modify the trap densities in different phases
-            trap_managers_sc_co[phase_index].trap_densities *=
-                ccd.fraction_of_traps_per_phase[phase_index];
-
-            trap_managers_sc_co[phase_index].setup();
-        }
-    }
-}
-
-/*
-    Reset the watermark arrays to empty, for all trap managers.
-*/
-void TrapManagerManager::reset_trap_states() {
-    if (n_traps_ic > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic[phase_index].reset_trap_states();
-        }
-    if (n_traps_sc > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc[phase_index].reset_trap_states();
-        }
-    if (n_traps_ic_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic_co[phase_index].reset_trap_states();
-        }
-    if (n_traps_sc_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc_co[phase_index].reset_trap_states();
-        }
-}
-
-/*
-    Store the watermark arrays to be loaded again later, for all trap managers.
-*/
-void TrapManagerManager::store_trap_states() {
-    if (n_traps_ic > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic[phase_index].store_trap_states();
-        }
-    if (n_traps_sc > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc[phase_index].store_trap_states();
-        }
-    if (n_traps_ic_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic_co[phase_index].store_trap_states();
-        }
-    if (n_traps_sc_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc_co[phase_index].store_trap_states();
-        }
-}
-
-/*
-    Restore the watermark arrays to their saved values, for all trap managers.
-*/
-void TrapManagerManager::restore_trap_states() {
-    if (n_traps_ic > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic[phase_index].restore_trap_states();
-        }
-    if (n_traps_sc > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc[phase_index].restore_trap_states();
-        }
-    if (n_traps_ic_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic_co[phase_index].restore_trap_states();
-        }
-    if (n_traps_sc_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc_co[phase_index].restore_trap_states();
-        }
-}
-
-/*
-    Prune redundant watermarks from watermark arrays, for all trap managers.
-*/
-void TrapManagerManager::prune_watermarks(double min_n_electrons) {
-    //print_v(0,"IC traps\n");
-    if (n_traps_ic > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic[phase_index].prune_watermarks(min_n_electrons);
-        }
-    //print_v(0,"SC traps\n");
-    if (n_traps_sc > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc[phase_index].prune_watermarks(min_n_electrons);
-        }
-    //print_v(0,"ICCR traps\n");
-    if (n_traps_ic_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_ic_co[phase_index].prune_watermarks(min_n_electrons);
-        }
-    //print_v(0,"SCCR traps\n");
-    if (n_traps_sc_co > 0)
-        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
-            trap_managers_sc_co[phase_index].prune_watermarks(min_n_electrons);
-        }
-}
+
+#include "trap_managers.hpp"
+
+#include <math.h>
+#include <stdio.h>
+
+#include <valarray>
+
+#include "ccd.hpp"
+#include "traps.hpp"
+#include "util.hpp"
+#include <iostream>
+
+// ========
+// TrapManagerBase::
+// ========
+/*
+    Class TrapManagerBase.
+
+    Abstract base class for the trap manager of one or multiple trap species
+    that are able to use watermarks in the same way as each other.
+
+    Parameters
+    ----------
+    traps : std::valarray<Trap>
+        A list of one or more trap species of the specific trap manager's type.
+
+        Not included in this base class, since the different managers require
+        different class types for the array.
+
+    max_n_transfers : int
+        The number of pixel transfers containing traps that charge will be
+        expected to go through. This feeds in to the maximum number of possible
+        capture/release events that could create new watermark levels, and is
+        used to initialise the watermark array to be only as large as needed.
+
+    ccd_phase : CCDPhase
+        Parameters to describe how electrons fill the volume inside (one phase
+        of) a pixel in a CCD detector.
+
+    dwell_time : double
+        The time spent in this pixel or phase, in the same units as the trap
+        timescales.
+
+    Attributes
+    ----------
+    n_traps : int
+        The number of trap species.
+
+    trap_densities : std::valarray<double>
+        The density of each trap species.
+
+    watermark_volumes : std::valarray<double>
+        Array of watermark fractional volumes to describe the trap states, i.e.
+        the proportion of the pixel volume occupied by each (active) watermark.
+
+    watermark_fills : std::valarray<double>
+        2D-style 1D array of watermark fill fractions to describe the trap
+        states, i.e. the proportion of traps that are filled in each (active)
+        watermark, multiplied by the trap's density, for each trap species.
+
+        Examples of slicing the arrays:
+            The ith watermark, jth trap fill:
+                watermark_fills[ i * n_traps + j ]
+
+            The ith watermark "row" of the fills:
+                watermark_fills[ std::slice(i * n_traps, n_traps, 1) ]
+
+            The ith trap species "column" of the fills:
+                watermark_fills[ std::slice(i, n_watermarks, n_traps) ]
+
+            The ith-to-jth watermark slices of the volumes and (all) the fills:
+                watermark_volumes[ std::slice(i, j - i, 1) ]
+                watermark_fills[ std::slice(i * n_traps, (j - i) * n_traps, 1) ]
+
+    empty_watermark : double
+        The watermark fill value corresponding to empty traps.
+
+    zeroth_watermark : double
+        The lowest watermark height value yet considered.
+
+    n_active_watermarks : int
+        The number of currently active watermark levels.
+
+    i_first_active_wmk : int
+        The index of the first active watermark. The effective starting point
+        for the active region of the watermark arrays. i.e. watermark levels
+        below this are ignored because they've been superseded.
+
+        This is primarily used by instant-capture traps where a charge cloud
+        will entirely fill all traps below it, making any pre-existing lower
+        watermarks no longer necessary to track.
+
+    n_watermarks_per_transfer : int
+        The number of new watermarks that could be made in each transfer.
+
+    n_watermarks : int
+        The total number of available watermark levels, determined by the number
+        of potential watermark-creating transfers and the watermarking scheme.
+*/
+TrapManagerBase::TrapManagerBase(
+    int max_n_transfers, CCDPhase ccd_phase, double dwell_time)
+    : max_n_transfers(max_n_transfers), ccd_phase(ccd_phase), dwell_time(dwell_time) {
+
+    empty_watermark = 0.0;
+    zeroth_watermark = 0.0;
+    n_active_watermarks = 0;
+    i_first_active_wmk = 0;
+    n_watermarks_per_transfer = 1;
+}
+
+/*
+    Initialise the watermark arrays.
+
+    Sets
+    ----
+    n_watermarks : int
+        The total number of available watermarks.
+
+    watermark_volumes, watermark_fills : std::valarray<double>
+        The initial empty watermark arrays.
+*/
+void TrapManagerBase::initialise_trap_states() {
+    n_watermarks = max_n_transfers * n_watermarks_per_transfer + 1;
+
+    watermark_volumes = std::valarray<double>(zeroth_watermark, n_watermarks);
+    watermark_fills = std::valarray<double>(empty_watermark, n_traps * n_watermarks);
+    //empty_probabilities_from_release = std::valarray<double>(0.0, n_traps);
+    
+    // Initialise the stored trap states too
+    store_trap_states();
+}
+
+/*
+    Reset the watermark arrays to empty.
+*/
+void TrapManagerBase::reset_trap_states() {
+    n_active_watermarks = 0;
+    i_first_active_wmk = 0;
+    watermark_volumes = zeroth_watermark;
+    watermark_fills = empty_watermark;
+}
+
+/*
+    Store the watermark arrays to be loaded again later.
+*/
+void TrapManagerBase::store_trap_states() {
+    stored_n_active_watermarks = n_active_watermarks;
+    stored_i_first_active_wmk = i_first_active_wmk;
+    stored_watermark_volumes = watermark_volumes;
+    stored_watermark_fills = watermark_fills;
+}
+
+/*
+    Restore the watermark arrays to their saved values.
+*/
+void TrapManagerBase::restore_trap_states() {
+    n_active_watermarks = stored_n_active_watermarks;
+    i_first_active_wmk = stored_i_first_active_wmk;
+    watermark_volumes = stored_watermark_volumes;
+    watermark_fills = stored_watermark_fills;
+}
+
+/*
+    Call any necessary initialisation functions, etc.
+*/
+void TrapManagerBase::setup() { initialise_trap_states(); }
+
+/*
+    Report the number of electrons currently held in all traps
+    within a single watermark.
+
+    Returns
+    -------
+    n_trapped_electrons_per_watermark : std::valarray<double>
+        The total number of electrons (summed over different species of 
+        traps) stored in a particular watermark.
+*/
+double TrapManagerBase::n_trapped_electrons_in_watermark(int i_wmk) {
+
+    // Fill fraction * trap density (an array for each trap species)
+    std::valarray<double> fill_fractions_in_this_wmk =
+        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
+    // Multiplied by volume
+    double n_trapped_electrons_in_this_wmk = 
+        fill_fractions_in_this_wmk.sum() * watermark_volumes[i_wmk];
+
+    return n_trapped_electrons_in_this_wmk;
+}
+
+/*
+    Report the number of electrons currently held in all traps.
+
+    Returns
+    -------
+    n_trapped_electrons_per_watermark : std::valarray<double>
+        The total number of electrons (summed over different species of 
+        traps) stored in all watermarks.
+*/
+std::valarray<double> TrapManagerBase::n_trapped_electrons_per_watermark() {
+
+    // Count the total number of electrons in each active watermark
+    std::valarray<double> fill_fractions_this_wmk(n_traps);
+    std::valarray<double> n_trapped_electrons_per_wmk(n_watermarks);
+    double n_trapped_electrons_in_total = 0;
+    double highest_watermark = 0;
+
+
+    for (int i_wmk = i_first_active_wmk;
+        i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+
+        // Extract the fill fractions in a 1D array
+        fill_fractions_this_wmk =
+            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
+        // Sum the fill fractions and multiply by the fractional volume
+        n_trapped_electrons_per_wmk[i_wmk] = 
+            fill_fractions_this_wmk.sum() * watermark_volumes[i_wmk];
+                
+        //print_v(0,"watermArk: %d volume: %g fill: %g n_electrons: %g n_traps: %d \n", 
+        //    i_wmk,watermark_volumes[i_wmk],
+        //    fill_fractions_this_wmk.sum(),
+        //    n_trapped_electrons_per_wmk[i_wmk],n_traps);
+
+    }
+    //print_v(0,"Total n_electrons %16.12g, highest watermark %16.12g\n",n_trapped_electrons_in_total,highest_watermark);
+
+    return n_trapped_electrons_per_wmk;
+}
+double TrapManagerBase::n_trapped_electrons_total() {
+
+    // No watermarks
+    if (n_active_watermarks == 0) return 0.0;
+    
+    // Sum over all watermarks
+    double n_trapped_electrons = (n_trapped_electrons_per_watermark()).sum();
+
+    return n_trapped_electrons;
+}
+
+
+
+/*
+    Sum the total number of electrons currently held in traps.
+
+    Parameters
+    ----------
+    wmk_volumes, wmk_fills : std::valarray<double>
+        The watermark arrays.
+
+    Returns
+    -------
+    n_trapped_electrons : double
+        The number of electrons stored in traps.
+*/
+double TrapManagerBase::n_trapped_electrons_from_watermarks(
+    std::valarray<double> wmk_volumes, std::valarray<double> wmk_fills) {
+
+    // No watermarks
+    if (n_active_watermarks == 0) return 0.0;
+
+    double n_trapped_electrons_total = 0.0;
+    std::valarray<double> n_trapped_electrons_this_wmk(n_traps);
+
+    // Each active watermark
+    for (int i_wmk = i_first_active_wmk;
+         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+        // Extract the fill fractions in a 1D array
+        n_trapped_electrons_this_wmk =
+            wmk_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
+
+        // Sum the fill fractions and multiply by the fractional volume
+        n_trapped_electrons_total += n_trapped_electrons_this_wmk.sum() * wmk_volumes[i_wmk];
+    }
+
+    return n_trapped_electrons_total;
+}
+
+
+
+/*
+    Reduce the value of the lowest watermark ever seen. It starts at zero, so this
+    function is only activated if the image contains negative pixels. 
+
+    Parameters
+    ----------
+    cloud_fractional_volume : double
+        The fractional volume the electron cloud reaches in the pixel well.
+
+    Returns
+    -------
+    i_wmk_above_cloud : int
+        The index of the first active watermark that reaches above the cloud.
+*/
+void TrapManagerBase::lower_zeroth_watermark(double n_free_electrons) {
+    //zeroth_watermark = n_free_electrons;
+}
+
+
+
+/*
+    Remove watermarks containing very low numbers of electrons, for speed later.
+    
+    To remove watermark i that contains Ni electrons in volume Vi,
+    we push all those electrons down to the next lower watermark b such that
+      Vb' = Vb + Vb Ni/Nb
+      fb' = fb
+      Nb' = Nb + Ni   ( = Vb' * fb' )
+    and increase the volume of the watermark above such that
+      Va' = Va + Vi - Vb Ni/Nb
+      fa' = fa * Va/Va'
+      Na' = Na        ( = Va' * fa' )
+    
+    Parameters
+    ----------
+    min_n_electrons : double Default [0] i.e. do nothing
+        If this is positive...
+        If a watermark contains fewer than this number of electrons, it will be
+        dissolved.
+        If this is negative...
+        If a watermark will release fewer than this number of electrons in the next
+        time setp, it will be dissolved.
+*/
+void TrapManagerBase::prune_watermarks(double min_n_electrons) {
+
+    
+
+    // With only one watermark, not much can be done
+    if (n_active_watermarks <= 1) return; // Cannot prune if there is only a trunk
+    if (n_trapped_electrons_in_watermark(i_first_active_wmk) <= 0) return; // Something has gone wrong to get here
+    print_v(3, "prune watermarks continaing fewer than %g electrons. Watermarks: %d %d\n", min_n_electrons, i_first_active_wmk, n_active_watermarks);
+
+    // Count the total number of electrons in each watermark
+    print_v(3,"\n\n Fill fractions before prune (first %d n %d)\n",i_first_active_wmk, n_active_watermarks);
+    std::valarray<double> n_trapped_electrons_per_wmk = n_trapped_electrons_per_watermark();
+    double n_trapped_electrons_start = n_trapped_electrons_per_wmk.sum();
+    double n_trapped_electrons_in_this_wmk;
+    double test_value;
+    double test_criterion = abs(min_n_electrons);
+              
+    // Consider each active watermark
+    int n_watermarks_pruned = 0;
+    for (int i_wmk = i_first_active_wmk + 1;
+        i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+        
+        int i_wmk_prime = i_wmk - n_watermarks_pruned;
+                
+        // Work out how many electrons are in this watermark
+        n_trapped_electrons_in_this_wmk = n_trapped_electrons_in_watermark(i_wmk_prime);
+        if (min_n_electrons > 0) {
+            test_value = n_trapped_electrons_in_this_wmk;
+        } else {
+            test_value = n_electrons_released_from_wmk_above_cloud(i_wmk_prime);
+        } 
+
+        // Volume this watermark's electrons would fill as part of the one below
+        double n_trapped_electrons_in_last_wmk = n_trapped_electrons_in_watermark(i_wmk_prime - 1);
+
+        double delta_volume_below = watermark_volumes[i_wmk_prime - 1] *
+            n_trapped_electrons_in_this_wmk / n_trapped_electrons_in_last_wmk;
+
+        // Don't dissolve a watermark into a less full one, left by earlier pruning,
+        // that would have to reach beyond it to hold its electrons
+        if (test_value < test_criterion &&
+            delta_volume_below <= watermark_volumes[i_wmk_prime]) {
+            
+            // Push the small number of electrons down into previous watermark
+            // (redistributing them between trap species by keeping fill fractions 
+            // as before, but increasing the watermark volume. This is not ideal
+            // but ensures no fill fractions ever exceed 1)
+
+/*            // Temp report
+            std::valarray<double> fill_fractions_in_down_wmk =
+                watermark_fills[std::slice((i_wmk_prime-1) * n_traps, n_traps, 1)];
+            double n_trapped_electrons_in_down_wmk = 
+                fill_fractions_in_down_wmk.sum() * watermark_volumes[i_wmk_prime-1]; 
+            print_v(0,"DownIncTo: %d volume: %g fill: %g n_electrons: %g \n", 
+                i_wmk_prime-1,watermark_volumes[i_wmk_prime-1],
+                fill_fractions_in_down_wmk.sum(),
+                n_trapped_electrons_in_down_wmk);
+
+            // Temp report
+            std::valarray<double> fill_fractions_in_this_wmk =
+                watermark_fills[std::slice(i_wmk_prime * n_traps, n_traps, 1)];
+            double n_trapped_electrons_in_this_wmk = 
+                fill_fractions_in_this_wmk.sum() * watermark_volumes[i_wmk_prime]; 
+            print_v(0,"ThisRemov: %d volume: %g fill: %g n_electrons: %g test: %g \n", 
+                i_wmk_prime,watermark_volumes[i_wmk_prime],
+                fill_fractions_in_this_wmk.sum(),
+                n_trapped_electrons_in_this_wmk,test_value);
+*/            
+            
+            
+            watermark_volumes[i_wmk_prime - 1] += delta_volume_below;
+            
+            // If there is a higher watermark...
+            if ((i_wmk + 1) < (i_first_active_wmk + n_active_watermarks)) {
+                
+                
+
+/*                // Temp report
+                std::valarray<double> fill_fractions_in_next_wmk =
+                    watermark_fills[std::slice((i_wmk_prime+1) * n_traps, n_traps, 1)];
+                double n_trapped_electrons_in_next_wmk = 
+                    fill_fractions_in_next_wmk.sum() * watermark_volumes[i_wmk_prime+1]; 
+                print_v(0,"ReplaceBy: %d volume: %g fill: %g n_electrons: %g \n", 
+                    i_wmk_prime,watermark_volumes[i_wmk_prime+1],
+                    fill_fractions_in_next_wmk.sum(),
+                    n_trapped_electrons_in_next_wmk);
+*/
+         
+                
+                // ...increase its volume to compensate,
+                double delta_volume_above = watermark_volumes[i_wmk_prime] - delta_volume_below;
+                watermark_volumes[i_wmk_prime + 1] += delta_volume_above;
+                
+                // Prevent division by zero if Va = Vi = 0
+                if (watermark_volumes[i_wmk_prime + 1] > 0) {
+
+                    // ...reduce its fill fraction to preserve number of electrons, 
+                    double fill_multiplier = 
+                        (watermark_volumes[i_wmk_prime + 1] - delta_volume_above) /
+                        watermark_volumes[i_wmk_prime + 1];
+                    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                        watermark_fills[(i_wmk_prime + 1) * n_traps + i_trap] *= fill_multiplier;
+                    }
+                
+                } //else { print_v(0,"Problem watermark!\n"); } 
+                // These fill fractions should be zero (I hope), so don't change them anyway.
+                
+                // ...then shuffle all higher watermarks down to earlier watermark position
+                for (int j_wmk = i_wmk + 1;
+                    j_wmk < i_first_active_wmk + n_active_watermarks; j_wmk++) {
+                
+                    int j_wmk_prime = j_wmk - n_watermarks_pruned - 1;
+                    watermark_volumes[j_wmk_prime] = watermark_volumes[j_wmk_prime + 1];
+                    watermark_fills[std::slice(j_wmk_prime * n_traps, n_traps, 1)] = 
+                        watermark_fills[std::slice((j_wmk_prime + 1) * n_traps, n_traps, 1)];
+                }
+            }
+            n_watermarks_pruned += 1;          
+        } else {
+
+/*            // Temp report
+            std::valarray<double> fill_fractions_in_this_wmk =
+                watermark_fills[std::slice(i_wmk_prime * n_traps, n_traps, 1)];
+            double n_trapped_electrons_in_this_wmk = 
+                fill_fractions_in_this_wmk.sum() * watermark_volumes[i_wmk_prime]; 
+            print_v(0,"ThisStays: %d volume: %g fill: %g n_electrons: %g test: %g \n", 
+                i_wmk_prime,watermark_volumes[i_wmk_prime],
+                fill_fractions_in_this_wmk.sum(),
+                n_trapped_electrons_in_this_wmk,test_value);
+ */       
+        }
+    }
+    n_active_watermarks -= n_watermarks_pruned;
+
+    // Empty the freed watermarks, ready for new ones
+    for (int i_wmk = i_first_active_wmk + n_active_watermarks;
+         i_wmk < i_first_active_wmk + n_active_watermarks + n_watermarks_pruned;
+         i_wmk++) {
+        watermark_volumes[i_wmk] = zeroth_watermark;
+        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] = empty_watermark;
+    }
+
+    // Count the total number of electrons in each watermark
+    print_v(3,"\n\n Fill fractions after prune (first %d n %d)\n",i_first_active_wmk, n_active_watermarks);
+    
+    //int flag;
+    //flag = std::cin.get();
+    //if(flag == 'q') { abort(); }
+}
+
+/*
+    Find the index of the watermark with a volume that reaches above the cloud.
+
+    Parameters
+    ----------
+    cloud_fractional_volume : double
+        The fractional volume the electron cloud reaches in the pixel well.
+
+    Returns
+    -------
+    i_wmk_above_cloud : int
+        The index of the first active watermark that reaches above the cloud.
+*/
+int TrapManagerBase::watermark_index_above_cloud(double cloud_fractional_volume) {
+    double cumulative_volume = zeroth_watermark;
+    
+    // Sum up the fractional volumes until surpassing the cloud volume
+    for (int i_wmk = i_first_active_wmk;
+         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+        // Total volume so far
+        cumulative_volume += watermark_volumes[i_wmk];
+
+        if (cumulative_volume > cloud_fractional_volume) return i_wmk;
+    }
+
+    // Cloud volume above all watermarks
+    return i_first_active_wmk + n_active_watermarks;
+}
+
+/*
+    How many electrons will be released from a watermark above the cloud,
+    during the next timestep.
+
+    Parameters
+    ----------
+    cloud_fractional_volume : double
+        The fractional volume the electron cloud reaches in the pixel well.
+
+    Returns
+    -------
+    i_wmk_above_cloud : int
+        The index of the first active watermark that reaches above the cloud.
+*/
+double TrapManagerBase::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
+    throw std::runtime_error( "this should get replaced for any trap type" );
+    return 0;
+}
+
+
+
+
+
+
+
+
+
+
+// ========
+// TrapManagerInstantCapture::
+// ========
+/*
+    Class TrapManagerInstantCapture.
+
+    For the standard release-then-instant-capture algorithm.
+
+    Attributes
+    ----------
+    any_non_uniform_traps : double
+        Default false, set to true if any of the traps have a non-uniform
+        distribution with volume, in which case some small extra steps are
+        required in the release and capture functions.
+*/
+TrapManagerInstantCapture::TrapManagerInstantCapture(
+    std::valarray<TrapInstantCapture> traps, int max_n_transfers, CCDPhase ccd_phase,
+    double dwell_time)
+    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
+
+    n_traps = traps.size();
+    trap_densities = std::valarray<double>(n_traps);
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        trap_densities[i_trap] = traps[i_trap].density;
+    }
+
+    any_non_uniform_traps = false;
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        if (traps[i_trap].fractional_volume_full_exposed > 0.0) {
+            any_non_uniform_traps = true;
+            break;
+        }
+    }
+}
+
+/*
+    Set the probabilities of traps being full after release.
+
+    Sets
+    ----
+    empty_probabilities_from_release : std::valarray<double>
+        The fraction of traps that were full that become empty after release.
+*/
+void TrapManagerInstantCapture::set_fill_probabilities() {
+    empty_probabilities_from_release = std::valarray<double>(0.0, n_traps);
+
+    // Set probabilities for each trap species
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // Resulting empty fraction from release
+        empty_probabilities_from_release[i_trap] =
+            1.0 - exp(-traps[i_trap].release_rate * dwell_time);
+    }
+}
+
+/*
+    Call any necessary initialisation functions, etc.
+*/
+void TrapManagerInstantCapture::setup() {
+    initialise_trap_states();
+    set_fill_probabilities();
+}
+
+/*
+    Release electrons from traps and update the watermarks.
+
+    Returns
+    -------
+    n_electrons_released : double
+        The number of released electrons.
+
+    Updates
+    -------
+    watermark_volumes, watermark_fills : std::valarray<double>
+        The updated watermarks.
+*/
+double TrapManagerInstantCapture::n_electrons_released() {
+    double n_released = 0.0;
+    double n_released_this_wmk;
+    double frac_released;
+    double frac_exposed_per_volume;
+    double cumulative_volume = 0.0;
+    double next_cumulative_volume = 0.0;
+
+    // Each active watermark
+    for (int i_wmk = i_first_active_wmk;
+         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+        n_released_this_wmk = 0.0;
+
+        if (any_non_uniform_traps) {
+            // Total volume at the bottom and top of this watermark
+            cumulative_volume = next_cumulative_volume;
+            next_cumulative_volume += watermark_volumes[i_wmk];
+        }
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Fraction of released electrons
+            frac_released = watermark_fills[i_wmk * n_traps + i_trap] *
+                            empty_probabilities_from_release[i_trap];
+
+            // Account for non-uniform distribution with volume
+            if (traps[i_trap].fractional_volume_full_exposed == 0.0)
+                frac_exposed_per_volume = 1.0;
+            else
+                frac_exposed_per_volume =
+                    traps[i_trap].fraction_traps_exposed_per_fractional_volume(
+                        cumulative_volume, next_cumulative_volume);
+
+            // Number released
+            n_released_this_wmk += frac_released * frac_exposed_per_volume;
+
+            // Update the watermark fill fraction
+            watermark_fills[i_wmk * n_traps + i_trap] -= frac_released;
+        }
+
+        // Multiply by the watermark volume
+        n_released += n_released_this_wmk * watermark_volumes[i_wmk];
+    }
+
+    return n_released;
+}
+
+/*
+    How many electrons will be released from a watermark above the cloud,
+    during the next timestep.
+
+    Parameters
+    ----------
+    cloud_fractional_volume : double
+        The fractional volume the electron cloud reaches in the pixel well.
+
+    Returns
+    -------
+    i_wmk_above_cloud : int
+        The index of the first active watermark that reaches above the cloud.
+*/
+double TrapManagerInstantCapture::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
+    
+    //print_v(0,"IC child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
+
+    // Fraction of electrons released from each trap species
+    double frac_released_this_wmk = 0.0;
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // Fraction of released electrons
+        frac_released_this_wmk +=
+            watermark_fills[i_wmk * n_traps + i_trap] *
+            empty_probabilities_from_release[i_trap];
+    }
+
+    // Multiply by the watermark volume
+    return frac_released_this_wmk * watermark_volumes[i_wmk];
+}
+
+/*
+    Modify the watermarks for normal capture.
+
+    Parameters
+    ----------
+    cloud_fractional_volume : double
+        The fractional volume the electron cloud reaches in the pixel well.
+
+    i_wmk_above_cloud : int
+        The index of the first active watermark that reaches above the cloud.
+
+    Updates
+    -------
+    watermark_volumes, watermark_fills : std::valarray<double>
+        The updated watermarks.
+*/
+void TrapManagerInstantCapture::update_watermarks_capture(
+    double cloud_fractional_volume, int i_wmk_above_cloud) {
+    // First capture
+    if (n_active_watermarks == 0) {
+        // Set fractional volume
+        watermark_volumes[0] = cloud_fractional_volume - zeroth_watermark;
+
+        // Set fill fractions for all trap species
+        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities;
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    // Cloud below all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk) {
+
+        // Make room for the new lowest watermark
+        if (i_first_active_wmk > 0) {
+            // Use existing room below the current first active watermark
+            i_first_active_wmk--;
+        } else {
+            // Copy-paste all higher watermarks up one to make room
+            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+                 i_wmk >= i_first_active_wmk; i_wmk--) {
+                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                        watermark_fills[i_wmk * n_traps + i_trap];
+                }
+            }
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+
+        // New watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            trap_densities;
+
+        // Update fractional volume of the partially overwritten watermark above
+        watermark_volumes[i_first_active_wmk + 1] -= (cloud_fractional_volume - zeroth_watermark);
+    }
+
+    // Cloud above all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+        // Skip all overwritten watermarks
+        i_first_active_wmk = i_wmk_above_cloud - 1;
+
+        // New first watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            trap_densities;
+
+        // Update count of active watermarks
+        print_v(2,"Resetting watermarks\n");
+        n_active_watermarks = 1;
+    }
+
+    // Cloud between current watermarks
+    else {
+        // Update fractional volume of the partially overwritten watermark
+        double previous_total_volume = zeroth_watermark;
+        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+            previous_total_volume += watermark_volumes[i_wmk];
+        }
+        watermark_volumes[i_wmk_above_cloud] =
+            previous_total_volume - cloud_fractional_volume;
+
+        // Update count of active watermarks
+        n_active_watermarks += i_first_active_wmk - i_wmk_above_cloud + 1;
+
+        // Skip all overwritten watermarks
+        i_first_active_wmk = i_wmk_above_cloud - 1;
+
+        // New first watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            trap_densities;
+    }
+
+    return;
+}
+
+/*
+    Modify the watermarks for capture when not enough electrons are available.
+
+    Each watermark is partially filled a fraction (`enough`) of the way to full,
+    such that the resulting number of captured electrons is restricted to the
+    number actually available for capture.
+
+    This only becomes relevant for tiny numbers of electrons, where the cloud
+    can reach a disproportionately large volume in the pixel (reaching
+    correspondingly many traps) for the small amount of charge.
+
+    Parameters
+    ----------
+    cloud_fractional_volume : double
+        The fractional volume the electron cloud reaches in the pixel well.
+
+    i_wmk_above_cloud : int
+        The index of the first active watermark that reaches above the cloud.
+
+    enough : double
+        The amount of electrons available as a fraction of the number that
+        could be captured by the watermarks reached by the cloud volume.
+
+    Updates
+    -------
+    watermark_volumes, watermark_fills : std::valarray<double>
+        The updated watermarks.
+*/
+void TrapManagerInstantCapture::update_watermarks_capture_not_enough(
+    double cloud_fractional_volume, int i_wmk_above_cloud, double enough) {
+    // First capture
+    if (n_active_watermarks == 0) {
+        // Set fractional volume
+        watermark_volumes[0] = cloud_fractional_volume - zeroth_watermark;
+
+        // Set fill fractions for all trap species
+        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities * enough;
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    // Cloud below all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk) {
+
+        // Make room for the new lowest watermark
+        if (i_first_active_wmk > 0) {
+            // Use existing room below the current first active watermark
+            i_first_active_wmk--;
+        } else {
+            // Copy-paste all higher watermarks up one to make room
+            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+                 i_wmk >= i_first_active_wmk; i_wmk--) {
+                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                        watermark_fills[i_wmk * n_traps + i_trap];
+                }
+            }
+        }
+
+        // New watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            (std::valarray<double>)watermark_fills[std::slice(
+                (i_first_active_wmk + 1) * n_traps, n_traps, 1)] *
+                (1.0 - enough) +
+            enough * trap_densities; // is this wrong? the new watermark level should be created full
+
+        // Update fractional volume of the partially overwritten watermark above
+        watermark_volumes[i_first_active_wmk + 1] -= (cloud_fractional_volume - zeroth_watermark);
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    // Cloud above all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+        // Cumulative volume of the watermark just below the new one
+        double volume_below = zeroth_watermark;
+        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+            volume_below += watermark_volumes[i_wmk];
+        }
+
+        // New watermark
+        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
+        //print_v(0,"Above cloud notenough. i %d wv %g cfv %g vb %g\n",i_wmk_above_cloud,watermark_volumes[i_wmk_above_cloud],cloud_fractional_volume,volume_below);
+        watermark_fills[std::slice(
+            (i_first_active_wmk + n_active_watermarks) * n_traps, n_traps, 1)] =
+            enough * trap_densities;
+
+        // Update all other watermarks part-way to full
+        for (int i_wmk = i_first_active_wmk;
+             i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
+                (std::valarray<double>)
+                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
+                    (1.0 - enough) +
+                enough * trap_densities;
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    // Cloud between current watermarks
+    else {
+        // Copy-paste all higher watermarks up one to make room
+        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+             i_wmk >= i_wmk_above_cloud; i_wmk--) {
+            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                    watermark_fills[i_wmk * n_traps + i_trap];
+            }
+        }
+
+        // Cumulative volume of the watermark just below the new one
+        double volume_below = zeroth_watermark;
+        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+            volume_below += watermark_volumes[i_wmk];
+        }
+
+        // New watermark
+        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
+
+        // Update volume of the partially overwritten watermark
+        //print_v(0,"wmv %g %g\n",watermark_volumes[i_wmk_above_cloud + 1],watermark_volumes[i_wmk_above_cloud + 1]-watermark_volumes[i_wmk_above_cloud]);
+        watermark_volumes[i_wmk_above_cloud + 1] -=
+            watermark_volumes[i_wmk_above_cloud];
+
+        // Update all watermarks, including the new one, part-way to full
+        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
+                (std::valarray<double>)
+                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
+                    (1.0 - enough) +
+                enough * trap_densities;
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    return;
+}
+
+/*
+    Capture electrons in traps and update the watermarks.
+
+    Parameters
+    ----------
+    n_free_electrons : double
+        The number of available electrons for trapping.
+
+    Returns
+    -------
+    n_electrons_captured : double
+        The number of captured electrons.
+
+    Updates
+    -------
+    watermark_volumes, watermark_fills : std::valarray<double>
+        The updated watermarks.
+*/
+double TrapManagerInstantCapture::n_electrons_captured(double n_free_electrons) {
+    // The fractional volume the electron cloud reaches in the pixel well
+    double cloud_fractional_volume =
+        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+
+    // No capture
+    if (cloud_fractional_volume == 0.0) return 0.0;
+
+    // ========
+    // Count the number of electrons that can be captured by each watermark
+    // ========
+    double n_captured = 0.0;
+    double n_captured_this_wmk;
+    double cumulative_volume = zeroth_watermark;
+    double next_cumulative_volume = zeroth_watermark;
+    double volume_top;
+    double frac_exposed_per_volume;
+
+    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+
+    // Each active watermark
+    for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+        n_captured_this_wmk = 0.0;
+
+        // Total volume at the bottom and top of this watermark
+        cumulative_volume = next_cumulative_volume;
+        next_cumulative_volume += watermark_volumes[i_wmk];
+
+        // Capture up to the cloud volume for the last watermark
+        if (i_wmk == i_wmk_above_cloud) {
+            volume_top = cloud_fractional_volume;
+        }
+        // Capture up to the next watermark for watermarks below the cloud
+        else {
+            volume_top = next_cumulative_volume;
+        }
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Account for non-uniform distribution with volume
+            if (traps[i_trap].fractional_volume_full_exposed == 0.0)
+                frac_exposed_per_volume = 1.0;
+            else
+                frac_exposed_per_volume =
+                    traps[i_trap].fraction_traps_exposed_per_fractional_volume(
+                        cumulative_volume, volume_top);
+
+            n_captured_this_wmk +=
+                (trap_densities[i_trap] - watermark_fills[i_wmk * n_traps + i_trap]) *
+                frac_exposed_per_volume;
+        }
+
+        // Capture from the bottom to the top of the watermark
+        n_captured += n_captured_this_wmk * (volume_top - cumulative_volume);
+    }
+
+    // ========
+    // Update the watermarks
+    // ========
+    // Check enough available electrons to capture
+    //
+    // Would be really nice to do this including the express multiplier.
+    // That would also prevent image pixels from changing sign when zeroth_watermark<0.
+    //
+    double enough =
+        (n_captured == 0.0) ? 1.0 : abs(n_free_electrons / n_captured);
+    //print_v(0,"enough %g %g %g\n", enough, n_free_electrons, n_captured);
+
+    // Normal full capture
+    if ( enough >= 1.0) {
+        update_watermarks_capture(cloud_fractional_volume, i_wmk_above_cloud);
+    }
+    // Partial capture
+    else {
+        update_watermarks_capture_not_enough(
+            cloud_fractional_volume, i_wmk_above_cloud, enough);
+
+        n_captured *= enough;
+    }
+
+    return n_captured;
+}
+
+/*
+    Release and capture electrons and update the trap watermarks.
+
+    The interaction between traps and the charge cloud during its dwell time in
+    this pixel (and phase) is modelled as follows:
+    + First the previously filled traps release charge.
+    + This may update the number of free electrons in the cloud that are
+        available for capture.
+    + Then any unfilled traps within the cloud volume capture charge.
+    + In the rare case that not enough electrons are available for capture,
+        all traps within the cloud capture proportionally less charge to match.
+
+    Parameters
+    ----------
+    n_free_electrons : double
+        The number of available electrons for trapping.
+
+    Returns
+    -------
+    n_electrons_released_and_captured : double
+        The number of released electrons.
+
+    Updates
+    -------
+    watermark_volumes, watermark_fills : std::valarray<double>
+        The updated watermarks.
+*/
+double TrapManagerInstantCapture::n_electrons_released_and_captured(
+    double n_free_electrons) {
+
+    //print_v(0, "n_free_electrons  %g \n", n_free_electrons);
+    //if (n_free_electrons < zeroth_watermark) {
+    //    lower_zeroth_watermark(n_free_electrons);
+    //}
+
+    double n_released = n_electrons_released();
+    print_v(2, "n_electrons_released  %g \n", n_released);
+
+    double n_captured = n_electrons_captured(n_free_electrons + n_released);
+    print_v(2, "n_electrons_captured  %g \n", n_captured);
+
+    return n_released - n_captured;
+}
+
+
+
+
+
+
+
+
+
+
+
+
+
+// ========
+// TrapManagerSlowCapture::
+// ========
+/*
+    Class TrapManagerSlowCapture.
+
+    For traps with a non-zero capture time.
+*/
+TrapManagerSlowCapture::TrapManagerSlowCapture(
+    std::valarray<TrapSlowCapture> traps, int max_n_transfers, CCDPhase ccd_phase,
+    double dwell_time)
+    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
+
+    n_traps = traps.size();
+    trap_densities = std::valarray<double>(n_traps);
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        trap_densities[i_trap] = traps[i_trap].density;
+    }
+
+    // Overwrite default parameter values
+    n_watermarks_per_transfer = 2;
+}
+
+/*
+    Set the probabilities of traps being full after release and/or capture.
+
+    See Lindegren (1998) section 3.2.
+
+    Sets
+    ----
+    fill_probabilities_from_empty : std::valarray<double>
+        The fraction of traps that were empty that become full.
+
+    fill_probabilities_from_full : std::valarray<double>
+        The fraction of traps that were full that stay full.
+
+    empty_probabilities_from_release : std::valarray<double>
+        The fraction of traps that were full that become empty after release.
+*/
+void TrapManagerSlowCapture::set_fill_probabilities() {
+    double total_rate, exponential_factor;
+    fill_probabilities_from_empty = std::valarray<double>(0.0, n_traps);
+    fill_probabilities_from_full = std::valarray<double>(0.0, n_traps);
+    empty_probabilities_from_release = std::valarray<double>(0.0, n_traps);
+
+    // Set probabilities for each trap species
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // Common factors
+        total_rate = traps[i_trap].capture_rate + traps[i_trap].release_rate;
+        exponential_factor = (1 - exp(-total_rate * dwell_time)) / total_rate;
+
+        // Resulting fill fraction for empty traps (Eqn. 20)
+        if (traps[i_trap].capture_rate == 0.0)
+            // Instant capture
+            fill_probabilities_from_empty[i_trap] = 1.0;
+        else
+            fill_probabilities_from_empty[i_trap] =
+                traps[i_trap].capture_rate * exponential_factor;
+
+        // Resulting fill fraction for filled traps (Eqn. 21)
+        if (traps[i_trap].capture_rate == 0.0)
+            // Instant (re-)capture
+            fill_probabilities_from_full[i_trap] = 1.0;
+        else
+            fill_probabilities_from_full[i_trap] =
+                1.0 - traps[i_trap].release_rate * exponential_factor;
+
+        // Resulting empty fraction from only release
+        empty_probabilities_from_release[i_trap] =
+            1.0 - exp(-traps[i_trap].release_rate * dwell_time);
+    }
+}
+
+/*
+    Call any necessary initialisation functions, etc.
+*/
+void TrapManagerSlowCapture::setup() {
+    initialise_trap_states();
+    set_fill_probabilities();
+}
+
+/*
+    Same as TrapManagerInstantCapture
+*/
+double TrapManagerSlowCapture::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
+    
+    //print_v(0,"SC child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
+
+    // Fraction of electrons released from each trap species
+    double frac_released_this_wmk = 0.0;
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // Fraction of released electrons
+        frac_released_this_wmk +=
+            watermark_fills[i_wmk * n_traps + i_trap] *
+            empty_probabilities_from_release[i_trap];
+    }
+
+    // Multiply by the watermark volume
+    return frac_released_this_wmk * watermark_volumes[i_wmk];
+}
+/*
+    Release and capture electrons and update the trap watermarks.
+
+    The interaction between traps and the charge cloud during its dwell time in
+    this pixel (and phase) is modelled as follows:
+    + First any previously filled traps that are not within the cloud volume
+        release charge.
+    + This may update the number of free electrons in the cloud that are
+        available for capture.
+    + Then all traps within the cloud volume release and capture charge.
+    + In the rare case that not enough electrons are available for capture,
+        all traps within the cloud capture proportionally less charge to match.
+
+    Parameters
+    ----------
+    n_free_electrons : double
+        The number of available electrons for trapping.
+
+    Returns
+    -------
+    n_electrons_released_and_captured : double
+        The number of released electrons.
+
+    Updates
+    -------
+    watermark_volumes, watermark_fills : std::valarray<double>
+        The updated watermarks.
+*/
+double TrapManagerSlowCapture::n_electrons_released_and_captured(
+    double n_free_electrons) {
+    // The fractional volume the electron cloud reaches in the pixel well
+    double cloud_fractional_volume =
+        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+
+    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+
+    // Add a new watermark at the cloud height
+    if (cloud_fractional_volume > 0.0) {
+        // First capture
+        if (n_active_watermarks == 0) {
+            // Set fractional volume
+            watermark_volumes[0] = cloud_fractional_volume;
+
+            // Update count of active watermarks
+            n_active_watermarks++;
+            i_wmk_above_cloud++;
+        }
+
+        // Cloud above all current watermarks
+        else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+            double previous_total_volume = 0.0;
+            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+                previous_total_volume += watermark_volumes[i_wmk];
+            }
+
+            // Set fractional volume
+            watermark_volumes[i_wmk_above_cloud] =
+                cloud_fractional_volume - previous_total_volume;
+
+            // Update count of active watermarks
+            n_active_watermarks++;
+            i_wmk_above_cloud++;
+        }
+
+        // Cloud between or below current watermarks
+        else {
+            // Original total volume of the to-be-split watermark
+            double previous_total_volume = 0.0;
+            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+                previous_total_volume += watermark_volumes[i_wmk];
+            }
+
+            // Copy-paste all higher watermarks up one to make room
+            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+                 i_wmk >= i_wmk_above_cloud; i_wmk--) {
+                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                        watermark_fills[i_wmk * n_traps + i_trap];
+                }
+            }
+
+            // Update count of active watermarks
+            n_active_watermarks++;
+            i_wmk_above_cloud++;
+
+            // New watermark
+            watermark_volumes[i_wmk_above_cloud - 1] =
+                watermark_volumes[i_wmk_above_cloud] -
+                (previous_total_volume - cloud_fractional_volume);
+
+            // Update fractional volume of the partially overwritten watermark
+            watermark_volumes[i_wmk_above_cloud] =
+                previous_total_volume - cloud_fractional_volume;
+        }
+    }
+
+    // ========
+    // Release electrons from any watermarks above the cloud
+    // ========
+    double n_released = 0.0;
+    double frac_released_this_wmk;
+    double frac_released_this_wmk_this_trap;
+    double cumulative_volume = 0.0;
+    double next_cumulative_volume = 0.0;
+
+    // Count the released electrons and update the watermarks
+    for (int i_wmk = i_wmk_above_cloud;
+         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+        frac_released_this_wmk = 0.0;
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Fraction of released electrons
+            frac_released_this_wmk_this_trap = 
+                watermark_fills[i_wmk * n_traps + i_trap] *
+                empty_probabilities_from_release[i_trap];
+
+            // Update the watermark fill fraction
+            watermark_fills[i_wmk * n_traps + i_trap] -= 
+                frac_released_this_wmk_this_trap;
+            
+            // Keep stock of newly free (fraction of) electrons
+            frac_released_this_wmk += frac_released_this_wmk_this_trap;
+        }
+
+        // Multiply by the watermark volume
+        n_released += frac_released_this_wmk * watermark_volumes[i_wmk];
+    }
+
+    // Update the electron cloud. If nothing was released then it still reaches the
+    // watermark at its height, which the rounded sum of volumes may not reproduce.
+    if (n_released > 0.0) {
+        n_free_electrons += n_released;
+        cloud_fractional_volume =
+            ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+        i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    }
+
+    // ========
+    // Capture and release electrons below the cloud
+    // ========
+    // No capture
+    if (cloud_fractional_volume == 0.0) return n_released;
+
+    // Add a new watermark at the new cloud height
+    if (n_released > 0.0 &&
+        i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+        // Cloud above all current watermarks
+        double previous_total_volume = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+            previous_total_volume += watermark_volumes[i_wmk];
+        }
+        watermark_volumes[i_wmk_above_cloud] =
+            cloud_fractional_volume - previous_total_volume;
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+        i_wmk_above_cloud++;
+    } else if (n_released > 0.0) {
+        // Original total volume of the watermark
+        double previous_total_volume = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+            previous_total_volume += watermark_volumes[i_wmk];
+        }
+
+        // Copy-paste any higher watermarks up one to make room
+        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+             i_wmk >= i_wmk_above_cloud; i_wmk--) {
+            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                    watermark_fills[i_wmk * n_traps + i_trap];
+            }
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+        i_wmk_above_cloud++;
+
+        // New watermark
+        watermark_volumes[i_wmk_above_cloud - 1] =
+            watermark_volumes[i_wmk_above_cloud] -
+            (previous_total_volume - cloud_fractional_volume);
+
+        // Update fractional volume of the partially overwritten watermark
+        watermark_volumes[i_wmk_above_cloud] =
+            previous_total_volume - cloud_fractional_volume;
+    }
+
+    // Release and capture electrons in each watermark below the cloud
+    double n_released_and_captured = 0.0;
+    double n_released_and_captured_this_wmk = 0.0;
+    double new_fill;
+    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+        n_released_and_captured_this_wmk = 0.0;
+
+        // Total volume at the bottom and top of this watermark
+        cumulative_volume = next_cumulative_volume;
+        next_cumulative_volume += watermark_volumes[i_wmk];
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Fraction of full traps that remain full plus fraction of empty
+            // traps that become full
+            new_fill = fill_probabilities_from_full[i_trap] *
+                           watermark_fills[i_wmk * n_traps + i_trap] +
+                       fill_probabilities_from_empty[i_trap] *
+                           (trap_densities[i_trap] -
+                            watermark_fills[i_wmk * n_traps + i_trap]);
+
+            // Net released minus captured electrons
+            n_released_and_captured_this_wmk +=
+                watermark_fills[i_wmk * n_traps + i_trap] - new_fill;
+        }
+
+        // Multiply by the watermark volume
+        n_released_and_captured += n_released_and_captured_this_wmk *
+                                   (next_cumulative_volume - cumulative_volume);
+    }
+
+    // ========
+    // Update the watermarks
+    // ========
+    // Check enough available electrons to capture, if more captured than released
+    double enough;
+    if (n_released_and_captured < 0.0)
+        enough = n_free_electrons / -n_released_and_captured;
+    else
+        enough = 1.0;
+
+    // Update the watermarks for release and capture below the cloud
+    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+        n_released_and_captured_this_wmk = 0.0;
+
+        // Total volume at the bottom and top of this watermark
+        cumulative_volume = next_cumulative_volume;
+        next_cumulative_volume += watermark_volumes[i_wmk];
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Fraction of full traps that remain full plus fraction of empty
+            // traps that become full
+            new_fill = fill_probabilities_from_full[i_trap] *
+                           watermark_fills[i_wmk * n_traps + i_trap] +
+                       fill_probabilities_from_empty[i_trap] *
+                           (trap_densities[i_trap] -
+                            watermark_fills[i_wmk * n_traps + i_trap]);
+
+            // Modify for not-enough capture
+            if (enough < 1.0) {
+                new_fill = enough * new_fill +
+                           (1.0 - enough) * watermark_fills[i_wmk * n_traps + i_trap];
+            }
+
+            // Update watermark fill fractions
+            watermark_fills[i_wmk * n_traps + i_trap] = new_fill;
+        }
+    }
+
+    if (enough < 1.0) n_released_and_captured *= enough;
+
+    return n_released + n_released_and_captured;
+}
+
+
+
+
+
+// ========
+// TrapManagerInstantCaptureContinuum::
+// ========
+/*
+    Class TrapManagerInstantCaptureContinuum.
+
+    For trap species with continous distributions of release timescales, and
+    the standard release-then-instant-capture algorithm.
+
+    For release, the watermark fill fractions are converted into the total time
+    elapsed since the traps were filled in order to update them.
+
+    Capture is identical to instant-capture traps.
+
+    Attributes (in addition to TrapManagerBase)
+    ----------
+    time_min : double
+    time_max : double
+        The minimum and maximum elapsed times to set the interpolation table
+        limits. See prep_fill_fraction_and_time_elapsed_tables().
+
+    n_intp : int
+        The number of interpolation values in the arrays. Currently set here
+        manually. See prep_fill_fraction_and_time_elapsed_tables().
+*/
+TrapManagerInstantCaptureContinuum::TrapManagerInstantCaptureContinuum(
+    std::valarray<TrapInstantCaptureContinuum> traps, int max_n_transfers,
+    CCDPhase ccd_phase, double dwell_time)
+    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
+
+    n_traps = traps.size();
+    trap_densities = std::valarray<double>(n_traps);
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        trap_densities[i_trap] = traps[i_trap].density;
+    }
+
+    time_min = dwell_time;
+    time_max = max_n_transfers * dwell_time;
+    n_intp = 1000;
+}
+
+/*
+    Set the interpolation table values for converting between fill fractions
+    and elapsed times.
+
+    See TrapInstantCaptureContinuum.prep_fill_fraction_and_time_elapsed_tables().
+*/
+void TrapManagerInstantCaptureContinuum::prepare_interpolation_tables() {
+    // Prepare interpolation tables for each trap species
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        traps[i_trap].prep_fill_fraction_and_time_elapsed_tables(
+            time_min, time_max, n_intp);
+    }
+}
+
+/*
+    Call any necessary initialisation functions, etc.
+*/
+void TrapManagerInstantCaptureContinuum::setup() {
+    initialise_trap_states();
+    prepare_interpolation_tables();
+}
+
+/*
+    How many electrons will be released from a watermark above the cloud,
+    during the next timestep.
+
+    Parameters
+    ----------
+    cloud_fractional_volume : double
+        The fractional volume the electron cloud reaches in the pixel well.
+
+    Returns
+    -------
+    i_wmk_above_cloud : int
+        The index of the first active watermark that reaches above the cloud.
+*/
+double TrapManagerInstantCaptureContinuum::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
+    
+//    print_v(0,"ICCR child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
+//    return 0;
+    // Fraction of electrons released from each trap species
+    double frac_released_this_wmk = 0.0;
+    double fill_initial;
+    double time_initial;
+    double fill_final;
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // Initial fill and conversion to elapsed time
+        if (trap_densities[i_trap] == 0.0) continue;
+        fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
+        time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
+            fill_initial / trap_densities[i_trap]);
+
+        // New fill fraction from updated elapsed time
+        fill_final = trap_densities[i_trap] *
+            traps[i_trap].fill_fraction_from_time_elapsed_table(
+                time_initial + dwell_time);
+
+        // Number released from difference in fill fractions
+        frac_released_this_wmk += fill_initial - fill_final;
+    }
+
+    // Multiply by the watermark volume
+    return frac_released_this_wmk * watermark_volumes[i_wmk];
+
+}
+/*
+    Same as TrapManagerInstantCapture, except for the conversion between fill
+    fractions and elapsed times to update the trap states.
+*/
+double TrapManagerInstantCaptureContinuum::n_electrons_released() {
+    double n_released = 0.0;
+    double n_released_this_wmk;
+    double fill_initial;
+    double time_initial;
+
+    // Each active watermark
+    for (int i_wmk = i_first_active_wmk;
+         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+        n_released_this_wmk = 0.0;
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Initial fill and conversion to elapsed time
+            if (trap_densities[i_trap] == 0.0) continue;
+            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
+            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
+                fill_initial / trap_densities[i_trap]);
+
+            // New fill fraction from updated elapsed time
+            watermark_fills[i_wmk * n_traps + i_trap] =
+                trap_densities[i_trap] *
+                traps[i_trap].fill_fraction_from_time_elapsed_table(
+                    time_initial + dwell_time);
+
+            // Number released from difference in fill fractions
+            n_released_this_wmk +=
+                fill_initial - watermark_fills[i_wmk * n_traps + i_trap];
+        }
+
+        // Multiply by the watermark volume
+        n_released += n_released_this_wmk * watermark_volumes[i_wmk];
+    }
+
+    return n_released;
+}
+
+/*
+    Same as TrapManagerInstantCapture.
+*/
+void TrapManagerInstantCaptureContinuum::update_watermarks_capture(
+    double cloud_fractional_volume, int i_wmk_above_cloud) {
+    // First capture
+    if (n_active_watermarks == 0) {
+        // Set fractional volume
+        watermark_volumes[0] = cloud_fractional_volume;
+
+        // Set fill fractions for all trap species
+        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities;
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    // Cloud below all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk) {
+        // Make room for the new lowest watermark
+        if (i_first_active_wmk > 0) {
+            // Use existing room below the current first active watermark
+            i_first_active_wmk--;
+        } else {
+            // Copy-paste all higher watermarks up one to make room
+            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+                 i_wmk >= i_first_active_wmk; i_wmk--) {
+                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                        watermark_fills[i_wmk * n_traps + i_trap];
+                }
+            }
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+
+        // New watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            trap_densities;
+
+        // Update fractional volume of the partially overwritten watermark above
+        watermark_volumes[i_first_active_wmk + 1] -= cloud_fractional_volume;
+    }
+
+    // Cloud above all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+        // Skip all overwritten watermarks
+        i_first_active_wmk = i_wmk_above_cloud - 1;
+
+        // New first watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            trap_densities;
+
+        // Update count of active watermarks
+        n_active_watermarks = 1;
+    }
+
+    // Cloud between current watermarks
+    else {
+        // Update fractional volume of the partially overwritten watermark
+        double previous_total_volume = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+            previous_total_volume += watermark_volumes[i_wmk];
+        }
+        watermark_volumes[i_wmk_above_cloud] =
+            previous_total_volume - cloud_fractional_volume;
+
+        // Update count of active watermarks
+        n_active_watermarks += i_first_active_wmk - i_wmk_above_cloud + 1;
+
+        // Skip all overwritten watermarks
+        i_first_active_wmk = i_wmk_above_cloud - 1;
+
+        // New first watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            trap_densities;
+    }
+
+    return;
+}
+
+/*
+    Same as TrapManagerInstantCapture.
+*/
+void TrapManagerInstantCaptureContinuum::update_watermarks_capture_not_enough(
+    double cloud_fractional_volume, int i_wmk_above_cloud, double enough) {
+    // First capture
+    if (n_active_watermarks == 0) {
+        // Set fractional volume
+        watermark_volumes[0] = cloud_fractional_volume;
+
+        // Set fill fractions for all trap species
+        watermark_fills[std::slice(0, n_traps, 1)] = trap_densities * enough;
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    // Cloud below all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk) {
+        // Make room for the new lowest watermark
+        if (i_first_active_wmk > 0) {
+            // Use existing room below the current first active watermark
+            i_first_active_wmk--;
+        } else {
+            // Copy-paste all higher watermarks up one to make room
+            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+                 i_wmk >= i_first_active_wmk; i_wmk--) {
+                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                        watermark_fills[i_wmk * n_traps + i_trap];
+                }
+            }
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+
+        // New watermark
+        watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
+        watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+            (std::valarray<double>)watermark_fills[std::slice(
+                (i_first_active_wmk + 1) * n_traps, n_traps, 1)] *
+                (1.0 - enough) +
+            enough * trap_densities;
+
+        // Update fractional volume of the partially overwritten watermark above
+        watermark_volumes[i_first_active_wmk + 1] -= cloud_fractional_volume;
+    }
+
+    // Cloud above all current watermarks
+    else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+        // Cumulative volume of the watermark just below the new one
+        double volume_below = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+            volume_below += watermark_volumes[i_wmk];
+        }
+
+        // New watermark
+        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
+        watermark_fills[std::slice(
+            (i_first_active_wmk + n_active_watermarks) * n_traps, n_traps, 1)] =
+            enough * trap_densities;
+
+        // Update all other watermarks part-way to full
+        for (int i_wmk = i_first_active_wmk;
+             i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
+                (std::valarray<double>)
+                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
+                    (1.0 - enough) +
+                enough * trap_densities;
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    // Cloud between current watermarks
+    else {
+        // Copy-paste all higher watermarks up one to make room
+        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+             i_wmk >= i_wmk_above_cloud; i_wmk--) {
+            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                    watermark_fills[i_wmk * n_traps + i_trap];
+            }
+        }
+
+        // Cumulative volume of the watermark just below the new one
+        double volume_below = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+            volume_below += watermark_volumes[i_wmk];
+        }
+
+        // New watermark
+        watermark_volumes[i_wmk_above_cloud] = cloud_fractional_volume - volume_below;
+
+        // Update volume of the partially overwritten watermark
+        watermark_volumes[i_wmk_above_cloud + 1] -=
+            watermark_volumes[i_wmk_above_cloud];
+
+        // Update all watermarks, including the new one, part-way to full
+        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+            watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] =
+                (std::valarray<double>)
+                        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] *
+                    (1.0 - enough) +
+                enough * trap_densities;
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+    }
+
+    return;
+}
+
+/*
+    Same as TrapManagerInstantCapture.
+*/
+double TrapManagerInstantCaptureContinuum::n_electrons_captured(
+    double n_free_electrons) {
+    // The fractional volume the electron cloud reaches in the pixel well
+    double cloud_fractional_volume =
+        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+
+    // No capture
+    if (cloud_fractional_volume == 0.0) return 0.0;
+
+    // ========
+    // Count the number of electrons that can be captured by each watermark
+    // ========
+    double n_captured = 0.0;
+    double n_captured_this_wmk;
+    double cumulative_volume = 0.0;
+    double next_cumulative_volume = 0.0;
+
+    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+
+    // Each active watermark
+    for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+        n_captured_this_wmk = 0.0;
+
+        // Total volume at the bottom and top of this watermark
+        cumulative_volume = next_cumulative_volume;
+        next_cumulative_volume += watermark_volumes[i_wmk];
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            n_captured_this_wmk +=
+                trap_densities[i_trap] - watermark_fills[i_wmk * n_traps + i_trap];
+        }
+
+        // Capture from the bottom of the last watermark up to the cloud volume
+        if (i_wmk == i_wmk_above_cloud) {
+            n_captured +=
+                n_captured_this_wmk * (cloud_fractional_volume - cumulative_volume);
+        }
+        // Capture from the bottom to top of watermark volumes below the cloud
+        else {
+            n_captured +=
+                n_captured_this_wmk * (next_cumulative_volume - cumulative_volume);
+        }
+    }
+
+    // ========
+    // Update the watermarks
+    // ========
+    // Check enough available electrons to capture
+    double enough = (n_captured == 0.0) ? 1.0 : n_free_electrons / n_captured;
+
+    // Normal full capture
+    if (enough >= 1.0) {
+        update_watermarks_capture(cloud_fractional_volume, i_wmk_above_cloud);
+    }
+    // Partial capture
+    else {
+        update_watermarks_capture_not_enough(
+            cloud_fractional_volume, i_wmk_above_cloud, enough);
+
+        n_captured *= enough;
+    }
+
+    return n_captured;
+}
+
+/*
+    Same as TrapManagerInstantCapture.
+*/
+double TrapManagerInstantCaptureContinuum::n_electrons_released_and_captured(
+    double n_free_electrons) {
+
+    double n_released = n_electrons_released();
+    print_v(2, "n_electrons_released  %g \n", n_released);
+
+    double n_captured = n_electrons_captured(n_free_electrons + n_released);
+    print_v(2, "n_electrons_captured  %g \n", n_captured);
+
+    return n_released - n_captured;
+}
+
+
+
+
+// ========
+// TrapManagerSlowCaptureContinuum::
+// ========
+/*
+    Class TrapManagerSlowCaptureContinuum.
+
+    For traps with a non-instant capture time and a continuum (log-normal
+    distribution) of release timescales.
+
+    Attributes (where different to TrapManagerInstantCaptureContinuum)
+    ----------
+    time_min : double
+        Unlike instant capture, need a much smaller minimum time so that the
+        interpolation tables cover the not-completely-filled traps from capture.
+*/
+TrapManagerSlowCaptureContinuum::TrapManagerSlowCaptureContinuum(
+    std::valarray<TrapSlowCaptureContinuum> traps, int max_n_transfers,
+    CCDPhase ccd_phase, double dwell_time)
+    : TrapManagerBase(max_n_transfers, ccd_phase, dwell_time), traps(traps) {
+
+    n_traps = traps.size();
+    trap_densities = std::valarray<double>(n_traps);
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        trap_densities[i_trap] = traps[i_trap].density;
+    }
+
+    time_min = dwell_time / 30;
+    time_max = max_n_transfers * dwell_time;
+    n_intp = 1000;
+
+    // Overwrite default parameter values
+    n_watermarks_per_transfer = 2;
+}
+
+/*
+    Set the interpolation table values for converting between fill fractions
+    and elapsed times.
+
+    See TrapManagerSlowCaptureContinuum.prep_fill_fraction_and_time_elapsed_tables()
+    and prep_fill_fraction_after_slow_capture_tables().
+*/
+void TrapManagerSlowCaptureContinuum::prepare_interpolation_tables() {
+    // Prepare interpolation tables for each trap species
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        traps[i_trap].prep_fill_fraction_and_time_elapsed_tables(
+            time_min, time_max, n_intp);
+        traps[i_trap].prep_fill_fraction_after_slow_capture_tables(
+            dwell_time, time_min, time_max, n_intp);
+    }
+}
+
+/*
+    Call any necessary initialisation functions, etc.
+*/
+void TrapManagerSlowCaptureContinuum::setup() {
+    initialise_trap_states();
+    prepare_interpolation_tables();
+}
+
+/*
+    Same as InstantCaptureContinuum
+*/
+double TrapManagerSlowCaptureContinuum::n_electrons_released_from_wmk_above_cloud(int i_wmk) {
+    
+    //print_v(0,"SCCR child version of n_electrons_released_from_wmk_above_cloud %g \n",empty_probabilities_from_release[0]);;
+    
+    // Fraction of electrons released from each trap species
+    double frac_released_this_wmk = 0.0;
+    double fill_initial;
+    double time_initial;
+    double fill_final;
+    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // Initial fill and conversion to elapsed time
+        if (trap_densities[i_trap] == 0.0) continue;
+        fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
+        time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
+            fill_initial / trap_densities[i_trap]);
+
+        // New fill fraction from updated elapsed time
+        fill_final = trap_densities[i_trap] *
+            traps[i_trap].fill_fraction_from_time_elapsed_table(
+                time_initial + dwell_time);
+
+        // Number released from difference in fill fractions
+        frac_released_this_wmk += fill_initial - fill_final;
+    }
+
+    // Multiply by the watermark volume
+    return frac_released_this_wmk * watermark_volumes[i_wmk];
+}
+/*
+    Same as TrapManagerSlowCapture, except for the conversion between fill
+    fractions and elapsed times to update the trap states.
+*/
+double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
+    double n_free_electrons) {
+    // The fractional volume the electron cloud reaches in the pixel well
+    double cloud_fractional_volume =
+        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+
+    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+
+    // Add a new watermark at the cloud height
+    if (cloud_fractional_volume > 0.0) {
+        // First capture
+        if (n_active_watermarks == 0) {
+            // Set fractional volume
+            watermark_volumes[0] = cloud_fractional_volume;
+
+            // Update count of active watermarks
+            n_active_watermarks++;
+            i_wmk_above_cloud++;
+        }
+
+        // Cloud above all current watermarks
+        else if (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+            double previous_total_volume = 0.0;
+            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+                previous_total_volume += watermark_volumes[i_wmk];
+            }
+
+            // Set fractional volume
+            watermark_volumes[i_wmk_above_cloud] =
+                cloud_fractional_volume - previous_total_volume;
+
+            // Update count of active watermarks
+            n_active_watermarks++;
+            i_wmk_above_cloud++;
+        }
+
+        // Cloud between or below current watermarks
+        else {
+            // Original total volume of the to-be-split watermark
+            double previous_total_volume = 0.0;
+            for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+                previous_total_volume += watermark_volumes[i_wmk];
+            }
+
+            // Copy-paste all higher watermarks up one to make room
+            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+                 i_wmk >= i_wmk_above_cloud; i_wmk--) {
+                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                        watermark_fills[i_wmk * n_traps + i_trap];
+                }
+            }
+
+            // Update count of active watermarks
+            n_active_watermarks++;
+            i_wmk_above_cloud++;
+
+            // New watermark
+            watermark_volumes[i_wmk_above_cloud - 1] =
+                watermark_volumes[i_wmk_above_cloud] -
+                (previous_total_volume - cloud_fractional_volume);
+
+            // Update fractional volume of the partially overwritten watermark
+            watermark_volumes[i_wmk_above_cloud] =
+                previous_total_volume - cloud_fractional_volume;
+        }
+    }
+
+    // ========
+    // Release electrons from any watermarks above the cloud
+    // ========
+    double n_released = 0.0;
+    double n_released_this_wmk = 0.0;
+    double fill_initial;
+    double time_initial;
+    double cumulative_volume = 0.0;
+    double next_cumulative_volume = 0.0;
+
+    // Count the released electrons and update the watermarks
+    // Same as TrapManagerInstantCaptureContinuum.n_electrons_released()
+    for (int i_wmk = i_wmk_above_cloud;
+         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
+        n_released_this_wmk = 0.0;
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Initial fill and conversion to elapsed time
+            if (trap_densities[i_trap] == 0.0) continue;
+            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
+            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
+                fill_initial / trap_densities[i_trap]);
+
+            // New fill fraction from updated elapsed time
+            watermark_fills[i_wmk * n_traps + i_trap] =
+                trap_densities[i_trap] *
+                traps[i_trap].fill_fraction_from_time_elapsed_table(
+                    time_initial + dwell_time);
+
+            // Number released from difference in fill fractions
+            n_released_this_wmk +=
+                fill_initial - watermark_fills[i_wmk * n_traps + i_trap];
+        }
+
+        // Multiply by the watermark volume
+        n_released += n_released_this_wmk * watermark_volumes[i_wmk];
+    }
+
+    // Update the electron cloud. If nothing was released then it still reaches the
+    // watermark at its height, which the rounded sum of volumes may not reproduce.
+    if (n_released > 0.0) {
+        n_free_electrons += n_released;
+        cloud_fractional_volume =
+            ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+        i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    }
+
+    // ========
+    // Capture and release electrons below the cloud
+    // ========
+    // No capture
+    if (cloud_fractional_volume == 0.0) return n_released;
+
+    // Add a new watermark at the new cloud height
+    if (n_released > 0.0 &&
+        i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks) {
+        // Cloud above all current watermarks
+        double previous_total_volume = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+            previous_total_volume += watermark_volumes[i_wmk];
+        }
+        watermark_volumes[i_wmk_above_cloud] =
+            cloud_fractional_volume - previous_total_volume;
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+        i_wmk_above_cloud++;
+    } else if (n_released > 0.0) {
+        // Original total volume of the watermark
+        double previous_total_volume = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
+            previous_total_volume += watermark_volumes[i_wmk];
+        }
+
+        // Copy-paste any higher watermarks up one to make room
+        for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
+             i_wmk >= i_wmk_above_cloud; i_wmk--) {
+            watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
+            for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+                watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
+                    watermark_fills[i_wmk * n_traps + i_trap];
+            }
+        }
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+        i_wmk_above_cloud++;
+
+        // New watermark
+        watermark_volumes[i_wmk_above_cloud - 1] =
+            watermark_volumes[i_wmk_above_cloud] -
+            (previous_total_volume - cloud_fractional_volume);
+
+        // Update fractional volume of the partially overwritten watermark
+        watermark_volumes[i_wmk_above_cloud] =
+            previous_total_volume - cloud_fractional_volume;
+    }
+
+    // Release and capture electrons in each watermark below the cloud
+    double n_released_and_captured = 0.0;
+    double n_released_and_captured_this_wmk = 0.0;
+    double new_fill;
+    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+        n_released_and_captured_this_wmk = 0.0;
+
+        // Total volume at the bottom and top of this watermark
+        cumulative_volume = next_cumulative_volume;
+        next_cumulative_volume += watermark_volumes[i_wmk];
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Initial fill and conversion to elapsed time
+            if (trap_densities[i_trap] == 0.0) continue;
+            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
+            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
+                fill_initial / trap_densities[i_trap]);
+
+            // Integrate over the fraction of full traps that remain full plus
+            // fraction of empty traps that become full over the distribution
+            new_fill =
+                traps[i_trap].fill_fraction_after_slow_capture_table(time_initial);
+
+            // Include the trap density
+            new_fill *= trap_densities[i_trap];
+
+            // Net released minus captured electrons
+            n_released_and_captured_this_wmk +=
+                watermark_fills[i_wmk * n_traps + i_trap] - new_fill;
+        }
+
+        // Multiply by the watermark volume
+        n_released_and_captured += n_released_and_captured_this_wmk *
+                                   (next_cumulative_volume - cumulative_volume);
+    }
+
+    // ========
+    // Update the watermarks
+    // ========
+    // Check enough available electrons to capture, if more captured than released
+    double enough;
+    if (n_released_and_captured < 0.0)
+        enough = n_free_electrons / -n_released_and_captured;
+    else
+        enough = 1.0;
+
+    // Update the watermarks for release and capture below the cloud
+    for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+        n_released_and_captured_this_wmk = 0.0;
+
+        // Total volume at the bottom and top of this watermark
+        cumulative_volume = next_cumulative_volume;
+        next_cumulative_volume += watermark_volumes[i_wmk];
+
+        // Each trap species
+        for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // Initial fill and conversion to elapsed time
+            if (trap_densities[i_trap] == 0.0) continue;
+            fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
+            time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
+                fill_initial / trap_densities[i_trap]);
+
+            // Integrate over the fraction of full traps that remain full plus
+            // fraction of empty traps that become full over the distribution
+            new_fill =
+                traps[i_trap].fill_fraction_after_slow_capture_table(time_initial);
+
+            // Include the trap density
+            new_fill *= trap_densities[i_trap];
+
+            // Modify for not-enough capture
+            if (enough < 1.0) {
+                new_fill = enough * new_fill +
+                           (1.0 - enough) * watermark_fills[i_wmk * n_traps + i_trap];
+            }
+
+            // Update watermark fill fractions
+            watermark_fills[i_wmk * n_traps + i_trap] = new_fill;
+        }
+    }
+
+    if (enough < 1.0) n_released_and_captured *= enough;
+
+    return n_released + n_released_and_captured;
+}
+
+// ========
+// TrapManagerManager::
+// ========
+/*
+    Class TrapManagerManager.
+
+    Handles the one or multiple trap managers required for models with a mix of
+    trap species and/or multiphase clocking.
+
+    Each individual trap manager tracks the states of one or more trap species.
+    A different trap manager is required for any traps of different types, and
+    separate trap managers are also required for each phase in multiphase
+    clocking, which corresponds to an independent population of traps.
+
+    On declaration, automatically creates the trap managers for each phase
+    and/or watermark type and initialises their watermark arrays. The trap
+    managers of each type are held in the trap_managers_* arrays, each
+    containing one manager of that type for each phase.
+
+    Also, if relevant, modifies the trap managers' trap densities to account for
+    the fraction of traps in different CCD pixel phases.
+
+    Parameters
+    ----------
+    traps_ic : std::valarray<TrapInstantCapture>
+    traps_sc : std::valarray<TrapSlowCapture>
+    traps_ic_co : std::valarray<TrapInstantCaptureContinuum>
+    traps_sc_co : std::valarray<TrapSlowCaptureContinuum>
+        The arrays of trap species, one for each type (which can be empty).
+
+    max_n_transfers : int
+        Same as TrapManagerBase. Is modified internally to include any extra
+        intra-pixel transfers for multiphase clocking.
+
+    ccd : CCD
+        Parameters to describe how electrons fill the volume inside (all phases
+        of) a pixel in a CCD detector.
+
+    dwell_times : std::valarray<double>
+        The time between steps in the clocking sequence, as stored by an ROE
+        object.
+
+        Note: currently assumes the dwell time in each phase is the same for all
+        steps, which might not be true in sequences with n_steps > n_phases.
+
+    Attributes
+    ----------
+    n_traps_ic : int
+    n_traps_sc : int
+    n_traps_ic_co : int
+    n_traps_sc_co : int
+        The number of trap species (if any) of each watermark type.
+
+    trap_managers_ic : std::valarray<TrapManagerInstantCapture>
+    trap_managers_sc : std::valarray<TrapManagerSlowCapture>
+    trap_managers_ic_co : std::valarray<TrapManagerInstantCaptureContinuum>
+    trap_managers_sc_co :
+   std::valarray<TrapManagerSlowCaptureContinuum> For each watermark type, the list of
+   trap manager objects for each phase. Ignored if the corresponding n_*_traps is 0.
+*/
+TrapManagerManager::TrapManagerManager(
+    std::valarray<TrapInstantCapture>& traps_ic,
+    std::valarray<TrapSlowCapture>& traps_sc,
+    std::valarray<TrapInstantCaptureContinuum>& traps_ic_co,
+    std::valarray<TrapSlowCaptureContinuum>& traps_sc_co, int max_n_transfers, CCD ccd,
+    std::valarray<double>& dwell_times)
+    : traps_ic(traps_ic),
+      traps_sc(traps_sc),
+      traps_ic_co(traps_ic_co),
+      traps_sc_co(traps_sc_co),
+      max_n_transfers(max_n_transfers),
+      ccd(ccd) {
+
+    // The number of trap species (if any) of each watermark type
+    n_traps_ic = traps_ic.size();
+    n_traps_sc = traps_sc.size();
+    n_traps_ic_co = traps_ic_co.size();
+    n_traps_sc_co = traps_sc_co.size();
+
+    // Account for the number of clock-sequence steps for the maximum transfers
+    max_n_transfers *= dwell_times.size();
+    this->max_n_transfers = max_n_transfers;
+
+    // ========
+    // Set up the trap manager for each phase, for each watermark type
+    // ========
+    if (n_traps_ic > 0) {
+        trap_managers_ic.resize(ccd.n_phases);
+
+        // Initialise manager and watermarks for each phase
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic[phase_index] = TrapManagerInstantCapture(
+                traps_ic, max_n_transfers, ccd.phases[phase_index],
+                dwell_times[phase_index]);
+
+            // Modify the trap densities in different phases
+            trap_managers_ic[phase_index].trap_densities *=
+                ccd.fraction_of_traps_per_phase[phase_index];
+
+            trap_managers_ic[phase_index].setup();
+        }
+    }
+
+    if (n_traps_sc > 0) {
+        trap_managers_sc.resize(ccd.n_phases);
+
+        // Initialise manager and watermarks for each phase
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc[phase_index] = TrapManagerSlowCapture(
+                traps_sc, max_n_transfers, ccd.phases[phase_index],
+                dwell_times[phase_index]);
+
+            // Modify the trap densities in different phases
+            trap_managers_sc[phase_index].trap_densities *=
+                ccd.fraction_of_traps_per_phase[phase_index];
+
+            trap_managers_sc[phase_index].setup();
+        }
+    }
+
+    if (n_traps_ic_co > 0) {
+        trap_managers_ic_co.resize(ccd.n_phases);
+
+        // Initialise manager and watermarks for each phase
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic_co[phase_index] = TrapManagerInstantCaptureContinuum(
+                traps_ic_co, max_n_transfers, ccd.phases[phase_index],
+                dwell_times[phase_index]);
+
+            // Modify the trap densities in different phases
+            trap_managers_ic_co[phase_index].trap_densities *=
+                ccd.fraction_of_traps_per_phase[phase_index];
+
+            trap_managers_ic_co[phase_index].setup();
+        }
+    }
+
+    if (n_traps_sc_co > 0) {
+        trap_managers_sc_co.resize(ccd.n_phases);
+
+        // Initialise manager and watermarks for each phase
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc_co[phase_index] = TrapManagerSlowCaptureContinuum(
+                traps_sc_co, max_n_transfers, ccd.phases[phase_index],
+                dwell_times[phase_index]);
+
+            // Modify the trap densities in different phases
+            trap_managers_sc_co[phase_index].trap_densities *=
+                ccd.fraction_of_traps_per_phase[phase_index];
+
+            trap_managers_sc_co[phase_index].setup();
+        }
+    }
+}
+
+/*
+    Reset the watermark arrays to empty, for all trap managers.
+*/
+void TrapManagerManager::reset_trap_states() {
+    if (n_traps_ic > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic[phase_index].reset_trap_states();
+        }
+    if (n_traps_sc > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc[phase_index].reset_trap_states();
+        }
+    if (n_traps_ic_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic_co[phase_index].reset_trap_states();
+        }
+    if (n_traps_sc_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc_co[phase_index].reset_trap_states();
+        }
+}
+
+/*
+    Store the watermark arrays to be loaded again later, for all trap managers.
+*/
+void TrapManagerManager::store_trap_states() {
+    if (n_traps_ic > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic[phase_index].store_trap_states();
+        }
+    if (n_traps_sc > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc[phase_index].store_trap_states();
+        }
+    if (n_traps_ic_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic_co[phase_index].store_trap_states();
+        }
+    if (n_traps_sc_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc_co[phase_index].store_trap_states();
+        }
+}
+
+/*
+    Restore the watermark arrays to their saved values, for all trap managers.
+*/
+void TrapManagerManager::restore_trap_states() {
+    if (n_traps_ic > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic[phase_index].restore_trap_states();
+        }
+    if (n_traps_sc > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc[phase_index].restore_trap_states();
+        }
+    if (n_traps_ic_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic_co[phase_index].restore_trap_states();
+        }
+    if (n_traps_sc_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc_co[phase_index].restore_trap_states();
+        }
+}
+
+/*
+    Prune redundant watermarks from watermark arrays, for all trap managers.
+*/
+void TrapManagerManager::prune_watermarks(double min_n_electrons) {
+    //print_v(0,"IC traps\n");
+    if (n_traps_ic > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic[phase_index].prune_watermarks(min_n_electrons);
+        }
+    //print_v(0,"SC traps\n");
+    if (n_traps_sc > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc[phase_index].prune_watermarks(min_n_electrons);
+        }
+    //print_v(0,"ICCR traps\n");
+    if (n_traps_ic_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_ic_co[phase_index].prune_watermarks(min_n_electrons);
+        }
+    //print_v(0,"SCCR traps\n");
+    if (n_traps_sc_co > 0)
+        for (int phase_index = 0; phase_index < ccd.n_phases; phase_index++) {
+            trap_managers_sc_co[phase_index].prune_watermarks(min_n_electrons);
+        }
+}
diff --git a/src/traps.cpp b/src/traps.cpp
index 66fc399..3378b9f 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -1,1001 +1,1001 @@
-
-#include "traps.hpp"
-
-#include <gsl/gsl_errno.h>
-#include <gsl/gsl_integration.h>
-#include <gsl/gsl_math.h>
-#include <gsl/gsl_roots.h>
-#include <math.h>
-
-#include <valarray>
-#include <limits>
-
-#include "util.hpp"
-
-// ========
-// TrapInstantCapture::
-// ========
-/*
-    Class TrapInstantCapture.
-
-    For the standard release-then-instant-capture algorithm.
-
-    Controls the density of traps and the timescales/probabilities of
-    capture and release, along with utilities for the watermarking tracking
-    of trap states and the calculation of capture and release.
-
-    Parameters
-    ----------
-    density : double
-        The density of the trap species in a pixel.
-
-    release_timescale : double
-        The release timescale of the trap, in the same units as the time
-        spent in each pixel or phase.
-
-    fractional_volume_none_exposed : double (opt.)
-    fractional_volume_full_exposed : double (opt.)
-        To allow for a non-uniform distribution with volume: the fractional
-        volume of a pixel below which no traps are exposed and above which traps
-        are fully exposed, respectively. Default to 0.0, 0.0 for uniformly
-        distributed traps. Between the two, the density of traps is set to
-        increase linearly. Or set both to the same (non-zero) value for a step
-        function of no traps below that volume and uniformly distributed traps
-        above it. See fill_fraction_from_time_elapsed().
-
-    Attributes
-    ----------
-    release_rate : double
-        The release (or emission) rate (Lindegren (1998) section 3.2).
-*/
-TrapInstantCapture::TrapInstantCapture(
-    double density, double release_timescale, double fractional_volume_none_exposed,
-    double fractional_volume_full_exposed)
-    : density(density),
-      release_timescale(release_timescale),
-      fractional_volume_none_exposed(fractional_volume_none_exposed),
-      fractional_volume_full_exposed(fractional_volume_full_exposed) {
-
-    release_rate = 1.0 / release_timescale;
-
-    // For a non-uniform distribution with volume, modify the density by the
-    // maximum fraction of exposable traps, i.e. the integration over the full
-    // volume of the fractional distribution, such that the trap's total density
-    // per pixel is preserved.
-    if (fractional_volume_full_exposed > 0.0)
-        this->density /= 1.0 - 0.5 * (fractional_volume_none_exposed +
-                                      fractional_volume_full_exposed);
-}
-
-/*
-    Calculate the fraction of filled traps after an amount of elapsed time.
-
-    Parameters
-    ----------
-    time_elapsed : double
-        The total time elapsed since the traps were filled, in the same
-        units as the trap timescales.
-
-    Returns
-    -------
-    fill_fraction : double
-        The remaining fraction of filled traps.
-*/
-double TrapInstantCapture::fill_fraction_from_time_elapsed(double time_elapsed) {
-    return exp(-time_elapsed / release_timescale);
-}
-
-/*
-    Calculate the fraction of traps exposed between two fractional volumes, to
-    allow for a non-uniform distribution with volume.
-
-    Simple idea but hard to put into words...
-
-    Assume a linear increase with volume (v) in the fraction of traps between
-    fractional_volume_none_exposed (a) and fractional_volume_full_exposed (a),
-    i.e. f(v) = (v - a) / (b - a), capped between zero and one. Here integrate
-    f(v) from fractional_volume_low (v_l) to high (v_h), then divide by the
-    total fractional volume to get the right "units", as it were.
-
-    Parameters
-    ----------
-    fractional_volume_low : double
-    fractional_volume_high : double
-        Two volumes (e.g. of a watermark) as a fraction of the pixel (or phase).
-
-    Returns
-    -------
-    fraction_exposed_traps : double
-        The fraction of traps exposed between these volumes, divided by the
-        volume. For default evenly distributed traps, the fraction exposed and
-        the fractional volume are the same, in which case this is always 1.0.
-*/
-double TrapInstantCapture::fraction_traps_exposed_per_fractional_volume(
-    double fractional_volume_low, double fractional_volume_high) {
-
-    if (fractional_volume_low >= fractional_volume_full_exposed)
-        return 1.0;
-    else if (fractional_volume_high <= fractional_volume_none_exposed)
-        return 0.0;
-    else if (fractional_volume_low >= fractional_volume_high)
-        // No volume between them, so simply f(v)
-        return (fractional_volume_low - fractional_volume_none_exposed) /
-               (fractional_volume_full_exposed - fractional_volume_none_exposed);
-
-    double fraction;
-    // Integrate f(v) from v_l to v_h
-    if (fractional_volume_none_exposed == fractional_volume_full_exposed) {
-        // Step function. v_h - b
-        fraction = fractional_volume_high - fractional_volume_full_exposed;
-    } else {
-        // v_l = max(v_l, a), v_h = min(v_h, b)
-        // int_v_l^v_h f dv = (1/2 v_h^2 - a v_h - 1/2 v_l^2 + a v_l) / (b - a)
-        double v_low = std::max(fractional_volume_low, fractional_volume_none_exposed);
-        double v_high =
-            std::min(fractional_volume_high, fractional_volume_full_exposed);
-        fraction = (0.5 * v_high * v_high - fractional_volume_none_exposed * v_high -
-                    0.5 * v_low * v_low + fractional_volume_none_exposed * v_low) /
-                   (fractional_volume_full_exposed - fractional_volume_none_exposed);
-        // + (v_h - b)
-        if (fractional_volume_high > fractional_volume_full_exposed)
-            fraction += fractional_volume_high - fractional_volume_full_exposed;
-    }
-
-    // Divide by the total fractional volume
-    return fraction / (fractional_volume_high - fractional_volume_low);
-}
-
-// ========
-// TrapSlowCapture::
-// ========
-/*
-    Class TrapSlowCapture.
-
-    For traps with a non-instant capture time.
-
-    Parameters
-    ----------
-    density : double
-        The density of the trap species in a pixel.
-
-    release_timescale : double
-        The release timescale of the trap, in the same units as the time
-        spent in each pixel or phase.
-
-    capture_timescale : double
-        The capture timescale of the trap.
-
-    Attributes
-    ----------
-    release_rate, capture_rate : double
-        The release and capture rates (Lindegren (1998) section 3.2).
-*/
-TrapSlowCapture::TrapSlowCapture(
-    double density, double release_timescale, double capture_timescale)
-    : TrapInstantCapture(density, release_timescale),
-      capture_timescale(capture_timescale) {
-
-    if (capture_timescale != 0.0)
-        capture_rate = 1.0 / capture_timescale;
-    else
-        capture_rate = 0.0;
-}
-
-// ========
-// TrapInstantCaptureContinuum::
-// ========
-/*
-    Class TrapInstantCaptureContinuum.
-
-    For a trap species with a continuum (log-normal distribution) of release
-    timescales, and instant capture.
-
-    i.e. Density as function of release timecsale is set by:
-    n(tau) = exp[-(log(tau) - log(mu))^2 / (2*sigma^2)] / (tau * sigma * sqrt(2*pi))
-
-    Parameters
-    ----------
-    density : double
-        The density of the trap species in a pixel.
-
-    release_timescale : double
-        The median release timescale of the traps, in the same units as the time
-        spent in each pixel or phase.
-
-    release_timescale_sigma : double
-        The sigma of release lifetimes of the traps.
-*/
-TrapInstantCaptureContinuum::TrapInstantCaptureContinuum(
-    double density, double release_timescale, double release_timescale_sigma)
-    : TrapInstantCapture(density, release_timescale),
-      release_timescale_sigma(release_timescale_sigma) {}
-
-/*
-    Calculate the fraction of filled traps after an amount of elapsed time.
-
-    Found by integrating the trap fill fraction multiplied by the trap density
-    distribution with trap release timescales:
-        f = int_0^inf n(tau) exp(-t_e/tau) dtau
-
-    Integrating from 0 to infinity can fail for very small mu and/or sigma, so
-    instead integrate over log(tau) within 10 sigma of log(mu) for a more
-    reliable and very close approximation.
-
-    (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
-
-    Parameters
-    ----------
-    time_elapsed : double
-        The total time elapsed since the traps were filled, in the same units
-        as the trap timescales.
-
-    workspace : gsl_integration_workspace* (opt.)
-        An existing GSL workspace memory handler for the integration, or nullptr
-        to create a new one.
-
-    Returns
-    -------
-    fill_fraction : double
-        The fraction of filled traps.
-*/
-struct TrICCo_ff_from_te_params {
-    double time_elapsed;
-    double mu;
-    double sigma;
-};
-
-double TrICCo_ff_from_te_integrand(double log_tau, void* params) {
-    struct TrICCo_ff_from_te_params* p = (struct TrICCo_ff_from_te_params*)params;
-
-    double tau = exp(log_tau);
-
-    // Distribution density
-    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (p->sigma * sqrt(2.0 * M_PI));
-
-    // To integrate: n(tau) * fill_frac(tau) dtau
-    return n * exp(-p->time_elapsed / tau);
-}
-
-double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
-    double time_elapsed, gsl_integration_workspace* workspace) {
-    // Completely full or empty, or unset watermark
-    if (time_elapsed == 0.0)
-        return 1.0;
-    else if (time_elapsed >= std::numeric_limits<double>::max())
-        return 0.0;
-    else if (time_elapsed == -1.0)
-        return 0.0;
-
-    // Prep the integration
-    double result, error;
-    const double min = log(release_timescale) - 10.0 * release_timescale_sigma;
-    const double max = log(release_timescale) + 10.0 * release_timescale_sigma;
-    const double epsabs = 0.0;
-    const double epsrel = 1e-6;
-    const int limit = 100;
-    const int key = GSL_INTEG_GAUSS51;
-    if (!workspace) {
-        workspace = gsl_integration_workspace_alloc(limit);
-    }
-    struct TrICCo_ff_from_te_params params = {
-        time_elapsed, release_timescale, release_timescale_sigma};
-    gsl_function F;
-    F.function = &TrICCo_ff_from_te_integrand;
-    F.params = &params;
-
-    // Integrate F.function from min to max
-    int status = gsl_integration_qag(
-        &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
-
-    if (status) error("Integration failed, status %d", status);
-
-    return result;
-}
-
-/*
-    Calculate the amount of elapsed time from the fraction of filled traps.
-
-    Found by finding where fill_fraction_from_time_elapsed(time_elapsed) is
-    equal to the required fill_fraction, using a root finder:
-        f(t_e) - f' = 0
-
-    (www.gnu.org/software/gsl/doc/html/roots.html)
-
-    Parameters
-    ----------
-    fill_fraction : double
-        The fraction of filled traps.
-
-    time_max : double
-        The maximum possible time, used to initialise the root finder. e.g. the
-        cumulative dwell time over all transfers.
-
-    workspace : gsl_integration_workspace* (opt.)
-        An existing GSL workspace memory handler for the integration, or nullptr
-        to create a new one.
-
-    Returns
-    -------
-    time_elapsed : double
-        The total time elapsed since the traps were filled, in the same units
-        as the trap timescales.
-*/
-struct TrICCo_te_from_ff_params {
-    TrapInstantCaptureContinuum* trap;
-    double fill_fraction;
-    gsl_integration_workspace* workspace;
-};
-
-double TrICCo_te_from_ff_root_function(double time_elapsed, void* params) {
-    struct TrICCo_te_from_ff_params* p = (struct TrICCo_te_from_ff_params*)params;
-
-    // To find time such that: fill_fraction(time) - fill_fraction = 0
-    return p->trap->fill_fraction_from_time_elapsed(time_elapsed, p->workspace) -
-           p->fill_fraction;
-}
-
-double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction(
-    double fill_fraction, double time_max, gsl_integration_workspace* workspace) {
-    // Completely full or empty, or unset watermark
-    if (fill_fraction == 1.0)
-        return 0.0;
-    else if (fill_fraction == 0.0)
-        return std::numeric_limits<double>::max();
-    else if (fill_fraction == -1.0)
-        return 0.0;
-
-    // Prep for the integration
-    if (!workspace) {
-        const int limit = 100;
-        workspace = gsl_integration_workspace_alloc(limit);
-    }
-
-    // Prep the root finder
-    double root;
-    int status;
-    const int max_iter = 100;
-    const double epsabs = 0.0;
-    const double epsrel = 1e-6;
-    const gsl_root_fsolver_type* T;
-    gsl_root_fsolver* s;
-    T = gsl_root_fsolver_brent;
-    s = gsl_root_fsolver_alloc(T);
-    struct TrICCo_te_from_ff_params params = {this, fill_fraction, workspace};
-    gsl_function F;
-    F.function = &TrICCo_te_from_ff_root_function;
-    F.params = &params;
-
-    // Bounding values
-    double x_lo = 0.0;
-    double x_hi = time_max;
-
-    // Iterate the root finder
-    int iter = 0;
-    gsl_root_fsolver_set(s, &F, x_lo, x_hi);
-    do {
-        iter++;
-        status = gsl_root_fsolver_iterate(s);
-        root = gsl_root_fsolver_root(s);
-        x_lo = gsl_root_fsolver_x_lower(s);
-        x_hi = gsl_root_fsolver_x_upper(s);
-        status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
-    } while (status == GSL_CONTINUE && iter < max_iter);
-
-    return root;
-}
-
-/*
-    Prepare tables of fill fractions and elapsed times for interpolation.
-
-    Use logarithmically spaced (decreasing) times to calculate the corresponding
-    (monotonically increasing) table of fill fractions. So no need to actually
-    store the elapsed times.
-
-    Parameters
-    ----------
-    time_min : double
-    time_max : double
-        The minimum and maximum elapsed times to set the table limits, e.g. a
-        single dwell time and the cumulative dwell time over all transfers.
-
-    n_intp : int
-        The number of interpolation values in the arrays.
-
-    Sets
-    ----
-    fill_fraction_table : std::valarray<double>
-        The array of fill fractions.
-
-    fill_min : double
-    fill_max : double
-        The fill fractions corresponding to the maximum and minimum times.
-
-    d_log_time : double
-        The logarithmic interval between successive (decreasing) times.
-*/
-void TrapInstantCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
-    double time_min, double time_max, int n_intp) {
-
-    // Prep for the GSL integration
-    const int limit = 100;
-    gsl_integration_workspace* workspace = gsl_integration_workspace_alloc(limit);
-
-    // Set up the arrays and limits
-    fill_fraction_table = std::valarray<double>(0.0, n_intp);
-    this->n_intp = n_intp;
-    this->time_min = time_min;
-    this->time_max = time_max;
-    fill_min = fill_fraction_from_time_elapsed(time_max, workspace);
-    fill_max = fill_fraction_from_time_elapsed(time_min, workspace);
-    d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
-    double time_i;
-
-    // Tabulate the values corresponding to the equally log-spaced inputs
-    for (int i = 0; i < n_intp; i++) {
-        time_i = exp(log(time_max) - i * d_log_time);
-        fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
-    }
-}
-
-/*
-    Calculate the fraction of filled traps after an amount of elapsed time,
-    using previously tabulated values for interpolation.
-
-    Parameters
-    ----------
-    time_elapsed : double
-        The total time elapsed since the traps were filled, in the same units
-        as the trap timescales.
-
-    Returns
-    -------
-    fill_fraction : double
-        The fraction of filled traps.
-*/
-double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed_table(
-    double time_elapsed) {
-    // Completely full or empty, or unset watermark
-    if (time_elapsed == 0.0)
-        return 1.0;
-    else if (time_elapsed >= std::numeric_limits<double>::max())
-        return 0.0;
-    else if (time_elapsed == -1.0)
-        return 0.0;
-
-    // Get the index and interpolation factor
-    double intp = (log(time_max) - log(time_elapsed)) / d_log_time;
-    int idx = (int)std::floor(intp);
-    intp = intp - idx;
-
-    // Extrapolate if outside the table
-    if (idx < 0) {
-        intp += idx;
-        idx = 0;
-    } else if (idx >= n_intp - 1) {
-        intp += idx - (n_intp - 2);
-        idx = n_intp - 2;
-    }
-
-    // Interpolate
-    double fill =
-        (1.0 - intp) * fill_fraction_table[idx] + intp * fill_fraction_table[idx + 1];
-
-    return clamp(fill, 0.0, 1.0);
-}
-
-/*
-    Calculate the amount of elapsed time from the fraction of filled traps,
-    using previously tabulated values for interpolation.
-
-    Parameters
-    ----------
-    fill_fraction : double
-        The fraction of filled traps.
-
-    Returns
-    -------
-    time_elapsed : double
-        The total time elapsed since the traps were filled, in the same units
-        as the trap timescales.
-*/
-double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction_table(
-    double fill_fraction) {
-    // Completely full or empty, or unset watermark
-    if (fill_fraction == 1.0)
-        return 0.0;
-    else if (fill_fraction == 0.0)
-        return std::numeric_limits<double>::max();
-    else if (fill_fraction == -1.0)
-        return 0.0;
-
-    // Find the index by searching the table
-    int idx = std::upper_bound(
-                  std::begin(fill_fraction_table), std::end(fill_fraction_table),
-                  fill_fraction) -
-              std::begin(fill_fraction_table) - 1;
-
-    // Extrapolate if outside the table
-    if (idx < 0)
-        idx = 0;
-    else if (idx == n_intp - 1)
-        idx = n_intp - 2;
-
-    // Interpolation factor
-    double intp = (fill_fraction - fill_fraction_table[idx]) /
-                  (fill_fraction_table[idx + 1] - fill_fraction_table[idx]);
-
-    // Interpolate
-    return exp(log(time_max) - (idx + intp) * d_log_time);
-}
-
-// ========
-// TrapSlowCaptureContinuum::
-// ========
-/*
-    Class TrapSlowCaptureContinuum.
-
-    For traps with a non-instant capture time, and a continuum (log-normal
-    distribution) of release timescales.
-
-    i.e. A combination of the TrapSlowCapture and TrapInstantCaptureContinuum models.
-
-    Parameters
-    ----------
-    density : double
-        The density of the trap species in a pixel.
-
-    release_timescale : double
-        The median release timescale of the traps, in the same units as the time
-        spent in each pixel or phase.
-
-    release_timescale_sigma : double
-        The sigma of release lifetimes of the traps.
-
-    capture_timescale : double
-        The capture timescale of the trap.
-*/
-TrapSlowCaptureContinuum::TrapSlowCaptureContinuum(
-    double density, double release_timescale, double release_timescale_sigma,
-    double capture_timescale)
-    : TrapInstantCapture(density, release_timescale),
-      release_timescale_sigma(release_timescale_sigma),
-      capture_timescale(capture_timescale) {
-
-    if (capture_timescale != 0.0)
-        capture_rate = 1.0 / capture_timescale;
-    else
-        capture_rate = 0.0;
-}
-
-/*
-    Same as TrapInstantCaptureContinuum
-*/
-struct TrSCCo_ff_from_te_params {
-    double time_elapsed;
-    double mu;
-    double sigma;
-};
-
-double TrSCCo_ff_from_te_integrand(double log_tau, void* params) {
-    struct TrSCCo_ff_from_te_params* p = (struct TrSCCo_ff_from_te_params*)params;
-
-    double tau = exp(log_tau);
-
-    // Distribution density
-    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (p->sigma * sqrt(2.0 * M_PI));
-
-    // To integrate: n(tau) * fill_frac(tau) dtau
-    return n * exp(-p->time_elapsed / tau);
-}
-
-double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
-    double time_elapsed, gsl_integration_workspace* workspace) {
-    // Completely full or empty, or unset watermark
-    if (time_elapsed == 0.0)
-        return 1.0;
-    else if (time_elapsed >= std::numeric_limits<double>::max())
-        return 0.0;
-    else if (time_elapsed == -1.0)
-        return 0.0;
-
-    // Prep the integration
-    double result, error;
-    const double min = log(release_timescale) - 10.0 * release_timescale_sigma;
-    const double max = log(release_timescale) + 10.0 * release_timescale_sigma;
-    const double epsabs = 0.0;
-    const double epsrel = 1e-6;
-    const int limit = 100;
-    const int key = GSL_INTEG_GAUSS51;
-    if (!workspace) {
-        workspace = gsl_integration_workspace_alloc(limit);
-    }
-    struct TrSCCo_ff_from_te_params params = {
-        time_elapsed, release_timescale, release_timescale_sigma};
-    gsl_function F;
-    F.function = &TrSCCo_ff_from_te_integrand;
-    F.params = &params;
-
-    // Integrate F.function from min to max
-    int status = gsl_integration_qag(
-        &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
-
-    if (status) error("Integration failed, status %d", status);
-
-    return result;
-}
-
-/*
-    Same as TrapInstantCaptureContinuum
-*/
-struct TrSCCo_te_from_ff_params {
-    TrapSlowCaptureContinuum* trap;
-    double fill_fraction;
-    gsl_integration_workspace* workspace;
-};
-
-double TrSCCo_te_from_ff_root_function(double time_elapsed, void* params) {
-    struct TrSCCo_te_from_ff_params* p = (struct TrSCCo_te_from_ff_params*)params;
-
-    // To find time such that: fill_fraction(time) - fill_fraction = 0
-    return p->trap->fill_fraction_from_time_elapsed(time_elapsed, p->workspace) -
-           p->fill_fraction;
-}
-
-double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction(
-    double fill_fraction, double time_max, gsl_integration_workspace* workspace) {
-    // Completely full or empty, or unset watermark
-    if (fill_fraction == 1.0)
-        return 0.0;
-    else if (fill_fraction == 0.0)
-        return std::numeric_limits<double>::max();
-    else if (fill_fraction == -1.0)
-        return 0.0;
-
-    // Prep for the integration
-    if (!workspace) {
-        const int limit = 100;
-        workspace = gsl_integration_workspace_alloc(limit);
-    }
-
-    // Prep the root finder
-    double root;
-    int status;
-    const int max_iter = 100;
-    const double epsabs = 0.0;
-    const double epsrel = 1e-6;
-    const gsl_root_fsolver_type* T;
-    gsl_root_fsolver* s;
-    T = gsl_root_fsolver_brent;
-    s = gsl_root_fsolver_alloc(T);
-    struct TrSCCo_te_from_ff_params params = {this, fill_fraction, workspace};
-    gsl_function F;
-    F.function = &TrSCCo_te_from_ff_root_function;
-    F.params = &params;
-
-    // Bounding values
-    double x_lo = 0.0;
-    double x_hi = time_max;
-
-    // Iterate the root finder
-    int iter = 0;
-    gsl_root_fsolver_set(s, &F, x_lo, x_hi);
-    do {
-        iter++;
-        status = gsl_root_fsolver_iterate(s);
-        root = gsl_root_fsolver_root(s);
-        x_lo = gsl_root_fsolver_x_lower(s);
-        x_hi = gsl_root_fsolver_x_upper(s);
-        status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
-    } while (status == GSL_CONTINUE && iter < max_iter);
-
-    return root;
-}
-
-/*
-    Same as TrapInstantCaptureContinuum
-*/
-void TrapSlowCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
-    double time_min, double time_max, int n_intp) {
-
-    // Prep for the GSL integration
-    const int limit = 100;
-    gsl_integration_workspace* workspace = gsl_integration_workspace_alloc(limit);
-
-    // Set up the arrays and limits
-    fill_fraction_table = std::valarray<double>(0.0, n_intp);
-    this->n_intp = n_intp;
-    this->time_min = time_min;
-    this->time_max = time_max;
-    fill_min = fill_fraction_from_time_elapsed(time_max, workspace);
-    fill_max = fill_fraction_from_time_elapsed(time_min, workspace);
-    d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
-    double time_i;
-
-    // Tabulate the values corresponding to the equally log-spaced inputs
-    for (int i = 0; i < n_intp; i++) {
-        time_i = exp(log(time_max) - i * d_log_time);
-        fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
-    }
-}
-
-/*
-    Same as TrapInstantCaptureContinuum
-*/
-double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed_table(
-    double time_elapsed) {
-    // Completely full or empty, or unset watermark
-    if (time_elapsed == 0.0)
-        return 1.0;
-    else if (time_elapsed >= std::numeric_limits<double>::max())
-        return 0.0;
-    else if (time_elapsed == -1.0)
-        return 0.0;
-
-    // Get the index and interpolation factor
-    double intp = (log(time_max) - log(time_elapsed)) / d_log_time;
-    int idx = (int)std::floor(intp);
-    intp = intp - idx;
-
-    // Extrapolate if outside the table
-    if (idx < 0) {
-        intp += idx;
-        idx = 0;
-    } else if (idx >= n_intp - 1) {
-        intp += idx - (n_intp - 2);
-        idx = n_intp - 2;
-    }
-
-    // Interpolate
-    double fill =
-        (1.0 - intp) * fill_fraction_table[idx] + intp * fill_fraction_table[idx + 1];
-
-    return clamp(fill, 0.0, 1.0);
-}
-
-/*
-    Same as TrapInstantCaptureContinuum
-*/
-double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction_table(
-    double fill_fraction) {
-    // Completely full or empty, or unset watermark
-    if (fill_fraction == 1.0)
-        return 0.0;
-    else if (fill_fraction == 0.0)
-        return std::numeric_limits<double>::max();
-    else if (fill_fraction == -1.0)
-        return 0.0;
-
-    // Find the index by searching the table
-    int idx = std::upper_bound(
-                  std::begin(fill_fraction_table), std::end(fill_fraction_table),
-                  fill_fraction) -
-              std::begin(fill_fraction_table) - 1;
-
-    // Extrapolate if outside the table
-    if (idx < 0)
-        idx = 0;
-    else if (idx == n_intp - 1)
-        idx = n_intp - 2;
-
-    // Interpolation factor
-    double intp = (fill_fraction - fill_fraction_table[idx]) /
-                  (fill_fraction_table[idx + 1] - fill_fraction_table[idx]);
-
-    // Interpolate
-    return exp(log(time_max) - (idx + intp) * d_log_time);
-}
-
-/*
-    Calculate the fraction of filled traps after slow-capture (and release).
-
-    Found by integrating the trap density distribution multiplied by the final
-    fill fraction, which must be calculated accounting for the dependency of
-    both the initial fill fraction and the fill probabilities on the release
-    lifetime distribution:
-        f(tau) = f_0(tau) f_f(tau) + (1 - f_0(tau)) f_e(tau)
-        f = int_0^inf n(tau) f(tau) dtau
-
-    Integrating from 0 to infinity can fail for very small mu and/or sigma, so
-    instead integrate over log(tau) within 10 sigma of log(mu) for a more
-    reliable and very close approximation.
-
-    (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
-
-    Parameters
-    ----------
-    time_elapsed : double
-        The approximate, effective time elapsed since the traps were filled, in
-        the same units as the trap timescales.
-
-    dwell_time : double
-        The time spent in this pixel or phase, in the same units as the trap
-        timescales.
-
-    workspace : gsl_integration_workspace* (opt.)
-        An existing GSL workspace memory handler for the integration, or nullptr
-        to create a new one.
-
-    Returns
-    -------
-    fill_fraction : double
-        The fraction of filled traps.
-*/
-struct TrSCCo_ff_after_sc_params {
-    double time_elapsed;
-    double mu;
-    double sigma;
-    double capture_rate;
-    double dwell_time;
-};
-
-double TrSCCo_ff_after_sc_integrand(double log_tau, void* params) {
-    struct TrSCCo_ff_after_sc_params* p = (struct TrSCCo_ff_after_sc_params*)params;
-
-    double tau = exp(log_tau);
-
-    // Distribution density
-    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (p->sigma * sqrt(2.0 * M_PI));
-
-    // Instant capture
-    if (p->capture_rate == 0.0) return n;
-
-    // Rates and fill probabilities
-    double release_rate = 1.0 / tau;
-    double total_rate = p->capture_rate + release_rate;
-    double exponential_factor = (1 - exp(-total_rate * p->dwell_time)) / total_rate;
-    double fill_probability_from_empty = p->capture_rate * exponential_factor;
-    double fill_probability_from_full = 1.0 - release_rate * exponential_factor;
-
-    // Initial fill fraction
-    double f_0;
-    if (p->time_elapsed == 0.0)
-        f_0 = 1.0;
-    else if (p->time_elapsed >= std::numeric_limits<double>::max())
-        f_0 = 0.0;
-    else
-        f_0 = exp(-p->time_elapsed * release_rate);
-
-    // To integrate: n(tau) * new_fill(tau) dtau
-    return n * (f_0 * fill_probability_from_full +
-                (1.0 - f_0) * fill_probability_from_empty);
-}
-
-double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
-    double time_elapsed, double dwell_time, gsl_integration_workspace* workspace) {
-    // Instant capture fills all traps completely, not just up to rounding errors
-    if (capture_rate == 0.0) return 1.0;
-
-    // Prep the integration
-    double result, error;
-    const double min = log(release_timescale) - 10.0 * release_timescale_sigma;
-    const double max = log(release_timescale) + 10.0 * release_timescale_sigma;
-    const double epsabs = 0.0;
-    const double epsrel = 1e-6;
-    const int limit = 100;
-    const int key = GSL_INTEG_GAUSS51;
-    if (!workspace) {
-        workspace = gsl_integration_workspace_alloc(limit);
-    }
-    struct TrSCCo_ff_after_sc_params params = {
-        time_elapsed, release_timescale, release_timescale_sigma, capture_rate,
-        dwell_time};
-    gsl_function F;
-    F.function = &TrSCCo_ff_after_sc_integrand;
-    F.params = &params;
-
-    // Integrate F.function from min to max
-    int status = gsl_integration_qag(
-        &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
-
-    if (status) error("Integration failed, status %d", status);
-
-    return result;
-}
-
-/*
-    Prepare tables of fill fractions and elapsed times for interpolation of
-    fill fractions after slow capture (and release).
-
-    Use logarithmically spaced (decreasing) times to calculate the corresponding
-    (monotonically increasing) table of fill fractions. So no need to actually
-    store the elapsed times.
-
-    Parameters
-    ----------
-    dwell_time : double
-        The time spent in this pixel or phase, in the same units as the trap
-        timescales.
-
-    time_min : double
-    time_max : double
-        The minimum and maximum elapsed times to set the table limits, e.g. a
-        single dwell time and the cumulative dwell time over all transfers.
-
-    n_intp : int
-        The number of interpolation values in the arrays.
-
-    Sets
-    ----
-    fill_fraction_capture_table : std::valarray<double>
-        The array of fill fractions.
-
-    fill_capture_long_time : double
-        The should-be-converged fill fraction from a very long elapsed time.
-*/
-void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
-    double dwell_time, double time_min, double time_max, int n_intp) {
-    // Prep for the GSL integration
-    const int limit = 100;
-    gsl_integration_workspace* workspace = gsl_integration_workspace_alloc(limit);
-
-    // Set up the arrays and limits
-    fill_fraction_capture_table = std::valarray<double>(0.0, n_intp);
-    this->n_intp = n_intp;
-    this->time_min = time_min;
-    this->time_max = time_max;
-    fill_capture_min =
-        fill_fraction_after_slow_capture(time_max, dwell_time, workspace);
-    fill_capture_max =
-        fill_fraction_after_slow_capture(time_min, dwell_time, workspace);
-    fill_capture_long_time =
-        fill_fraction_after_slow_capture(
-            std::numeric_limits<double>::max(), dwell_time, workspace);
-    d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
-    double time_i;
-
-    // Tabulate the values corresponding to the equally log-spaced inputs
-    for (int i = 0; i < n_intp; i++) {
-        time_i = exp(log(time_max) - i * d_log_time);
-        fill_fraction_capture_table[i] =
-            fill_fraction_after_slow_capture(time_i, dwell_time, workspace);
-    }
-}
-
-/*
-    Calculate the fraction of filled traps after slow-capture (and release),
-    using previously tabulated values for interpolation.
-
-    Parameters
-    ----------
-    time_elapsed : double
-        The approximate, effective time elapsed since the traps were filled, in
-        the same units as the trap timescales.
-
-    Returns
-    -------
-    fill_fraction : double
-        The fraction of filled traps.
-*/
-double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture_table(
-    double time_elapsed) {
-    // Completely full, very long elapsed time, or unset watermark
-    if (time_elapsed == 0.0)
-        return fill_capture_max;
-    else if (time_elapsed >= std::numeric_limits<double>::max())
-        return fill_capture_long_time;
-    else if (time_elapsed == -1.0)
-        return 0.0;
-
-    // Get the index and interpolation factor
-    double intp = (log(time_max) - log(time_elapsed)) / d_log_time;
-    int idx = (int)std::floor(intp);
-    intp = intp - idx;
-
-    // Extrapolate if outside the table
-    if (idx < 0) {
-        intp += idx;
-        idx = 0;
-    } else if (idx >= n_intp - 1) {
-        intp += idx - (n_intp - 2);
-        idx = n_intp - 2;
-    }
-
-    // Interpolate
-    double fill = (1.0 - intp) * fill_fraction_capture_table[idx] +
-                  intp * fill_fraction_capture_table[idx + 1];
-
-    return clamp(fill, 0.0, 1.0);
-}
+
+#include "traps.hpp"
+
+#include <gsl/gsl_errno.h>
+#include <gsl/gsl_integration.h>
+#include <gsl/gsl_math.h>
+#include <gsl/gsl_roots.h>
+#include <math.h>
+
+#include <valarray>
+#include <limits>
+
+#include "util.hpp"
+
+// ========
+// TrapInstantCapture::
+// ========
+/*
+    Class TrapInstantCapture.
+
+    For the standard release-then-instant-capture algorithm.
+
+    Controls the density of traps and the timescales/probabilities of
+    capture and release, along with utilities for the watermarking tracking
+    of trap states and the calculation of capture and release.
+
+    Parameters
+    ----------
+    density : double
+        The density of the trap species in a pixel.
+
+    release_timescale : double
+        The release timescale of the trap, in the same units as the time
+        spent in each pixel or phase.
+
+    fractional_volume_none_exposed : double (opt.)
+    fractional_volume_full_exposed : double (opt.)
+        To allow for a non-uniform distribution with volume: the fractional
+        volume of a pixel below which no traps are exposed and above which traps
+        are fully exposed, respectively. Default to 0.0, 0.0 for uniformly
+        distributed traps. Between the two, the density of traps is set to
+        increase linearly. Or set both to the same (non-zero) value for a step
+        function of no traps below that volume and uniformly distributed traps
+        above it. See fill_fraction_from_time_elapsed().
+
+    Attributes
+    ----------
+    release_rate : double
+        The release (or emission) rate (Lindegren (1998) section 3.2).
+*/
+TrapInstantCapture::TrapInstantCapture(
+    double density, double release_timescale, double fractional_volume_none_exposed,
+    double fractional_volume_full_exposed)
+    : density(density),
+      release_timescale(release_timescale),
+      fractional_volume_none_exposed(fractional_volume_none_exposed),
+      fractional_volume_full_exposed(fractional_volume_full_exposed) {
+
+    release_rate = 1.0 / release_timescale;
+
+    // For a non-uniform distribution with volume, modify the density by the
+    // maximum fraction of exposable traps, i.e. the integration over the full
+    // volume of the fractional distribution, such that the trap's total density
+    // per pixel is preserved.
+    if (fractional_volume_full_exposed > 0.0)
+        this->density /= 1.0 - 0.5 * (fractional_volume_none_exposed +
+                                      fractional_volume_full_exposed);
+}
+
+/*
+    Calculate the fraction of filled traps after an amount of elapsed time.
+
+    Parameters
+    ----------
+    time_elapsed : double
+        The total time elapsed since the traps were filled, in the same
+        units as the trap timescales.
+
+    Returns
+    -------
+    fill_fraction : double
+        The remaining fraction of filled traps.
+*/
+double TrapInstantCapture::fill_fraction_from_time_elapsed(double time_elapsed) {
+    return exp(-time_elapsed / release_timescale);
+}
+
+/*
+    Calculate the fraction of traps exposed between two fractional volumes, to
+    allow for a non-uniform distribution with volume.
+
+    Simple idea but hard to put into words...
+
+    Assume a linear increase with volume (v) in the fraction of traps between
+    fractional_volume_none_exposed (a) and fractional_volume_full_exposed (a),
+    i.e. f(v) = (v - a) / (b - a), capped between zero and one. Here integrate
+    f(v) from fractional_volume_low (v_l) to high (v_h), then divide by the
+    total fractional volume to get the right "units", as it were.
+
+    Parameters
+    ----------
+    fractional_volume_low : double
+    fractional_volume_high : double
+        Two volumes (e.g. of a watermark) as a fraction of the pixel (or phase).
+
+    Returns
+    -------
+    fraction_exposed_traps : double
+        The fraction of traps exposed between these volumes, divided by the
+        volume. For default evenly distributed traps, the fraction exposed and
+        the fractional volume are the same, in which case this is always 1.0.
+*/
+double TrapInstantCapture::fraction_traps_exposed_per_fractional_volume(
+    double fractional_volume_low, double fractional_volume_high) {
+
+    if (fractional_volume_low >= fractional_volume_full_exposed)
+        return 1.0;
+    else if (fractional_volume_high <= fractional_volume_none_exposed)
+        return 0.0;
+    else if (fractional_volume_low >= fractional_volume_high)
+        // No volume between them, so simply f(v)
+        return (fractional_volume_low - fractional_volume_none_exposed) /
+               (fractional_volume_full_exposed - fractional_volume_none_exposed);
+
+    double fraction;
+    // Integrate f(v) from v_l to v_h
+    if (fractional_volume_none_exposed == fractional_volume_full_exposed) {
+        // Step function. v_h - b
+        fraction = fractional_volume_high - fractional_volume_full_exposed;
+    } else {
+        // v_l = max(v_l, a), v_h = min(v_h, b)
+        // int_v_l^v_h f dv = (1/2 v_h^2 - a v_h - 1/2 v_l^2 + a v_l) / (b - a)
+        double v_low = std::max(fractional_volume_low, fractional_volume_none_exposed);
+        double v_high =
+            std::min(fractional_volume_high, fractional_volume_full_exposed);
+        fraction = (0.5 * v_high * v_high - fractional_volume_none_exposed * v_high -
+                    0.5 * v_low * v_low + fractional_volume_none_exposed * v_low) /
+                   (fractional_volume_full_exposed - fractional_volume_none_exposed);
+        // + (v_h - b)
+        if (fractional_volume_high > fractional_volume_full_exposed)
+            fraction += fractional_volume_high - fractional_volume_full_exposed;
+    }
+
+    // Divide by the total fractional volume
+    return fraction / (fractional_volume_high - fractional_volume_low);
+}
+
+// ========
+// TrapSlowCapture::
+// ========
+/*
+    Class TrapSlowCapture.
+
+    For traps with a non-instant capture time.
+
+    Parameters
+    ----------
+    density : double
+        The density of the trap species in a pixel.
+
+    release_timescale : double
+        The release timescale of the trap, in the same units as the time
+        spent in each pixel or phase.
+
+    capture_timescale : double
+        The capture timescale of the trap.
+
+    Attributes
+    ----------
+    release_rate, capture_rate : double
+        The release and capture rates (Lindegren (1998) section 3.2).
+*/
+TrapSlowCapture::TrapSlowCapture(
+    double density, double release_timescale, double capture_timescale)
+    : TrapInstantCapture(density, release_timescale),
+      capture_timescale(capture_timescale) {
+
+    if (capture_timescale != 0.0)
+        capture_rate = 1.0 / capture_timescale;
+    else
+        capture_rate = 0.0;
+}
+
+// ========
+// TrapInstantCaptureContinuum::
+// ========
+/*
+    Class TrapInstantCaptureContinuum.
+
+    For a trap species with a continuum (log-normal distribution) of release
+    timescales, and instant capture.
+
+    i.e. Density as function of release timecsale is set by:
+    n(tau) = exp[-(log(tau) - log(mu))^2 / (2*sigma^2)] / (tau * sigma * sqrt(2*pi))
+
+    Parameters
+    ----------
+    density : double
+        The density of the trap species in a pixel.
+
+    release_timescale : double
+        The median release timescale of the traps, in the same units as the time
+        spent in each pixel or phase.
+
+    release_timescale_sigma : double
+        The sigma of release lifetimes of the traps.
+*/
+TrapInstantCaptureContinuum::TrapInstantCaptureContinuum(
+    double density, double release_timescale, double release_timescale_sigma)
+    : TrapInstantCapture(density, release_timescale),
+      release_timescale_sigma(release_timescale_sigma) {}
+
+/*
+    Calculate the fraction of filled traps after an amount of elapsed time.
+
+    Found by integrating the trap fill fraction multiplied by the trap density
+    distribution with trap release timescales:
+        f = int_0^inf n(tau) exp(-t_e/tau) dtau
+
+    Integrating from 0 to infinity can fail for very small mu and/or sigma, so
+    instead integrate over log(tau) within 10 sigma of log(mu) for a more
+    reliable and very close approximation.
+
+    (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
+
+    Parameters
+    ----------
+    time_elapsed : double
+        The total time elapsed since the traps were filled, in the same units
+        as the trap timescales.
+
+    workspace : gsl_integration_workspace* (opt.)
+        An existing GSL workspace memory handler for the integration, or nullptr
+        to create a new one.
+
+    Returns
+    -------
+    fill_fraction : double
+        The fraction of filled traps.
+*/
+struct TrICCo_ff_from_te_params {
+    double time_elapsed;
+    double mu;
+    double sigma;
+};
+
+double TrICCo_ff_from_te_integrand(double log_tau, void* params) {
+    struct TrICCo_ff_from_te_params* p = (struct TrICCo_ff_from_te_params*)params;
+
+    double tau = exp(log_tau);
+
+    // Distribution density
+    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (p->sigma * sqrt(2.0 * M_PI));
+
+    // To integrate: n(tau) * fill_frac(tau) dtau
+    return n * exp(-p->time_elapsed / tau);
+}
+
+double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
+    double time_elapsed, gsl_integration_workspace* workspace) {
+    // Completely full or empty, or unset watermark
+    if (time_elapsed == 0.0)
+        return 1.0;
+    else if (time_elapsed >= std::numeric_limits<double>::max())
+        return 0.0;
+    else if (time_elapsed == -1.0)
+        return 0.0;
+
+    // Prep the integration
+    double result, error;
+    const double min = log(release_timescale) - 10.0 * release_timescale_sigma;
+    const double max = log(release_timescale) + 10.0 * release_timescale_sigma;
+    const double epsabs = 0.0;
+    const double epsrel = 1e-6;
+    const int limit = 100;
+    const int key = GSL_INTEG_GAUSS51;
+    if (!workspace) {
+        workspace = gsl_integration_workspace_alloc(limit);
+    }
+    struct TrICCo_ff_from_te_params params = {
+        time_elapsed, release_timescale, release_timescale_sigma};
+    gsl_function F;
+    F.function = &TrICCo_ff_from_te_integrand;
+    F.params = &params;
+
+    // Integrate F.function from min to max
+    int status = gsl_integration_qag(
+        &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
+
+    if (status) error("Integration failed, status %d", status);
+
+    return result;
+}
+
+/*
+    Calculate the amount of elapsed time from the fraction of filled traps.
+
+    Found by finding where fill_fraction_from_time_elapsed(time_elapsed) is
+    equal to the required fill_fraction, using a root finder:
+        f(t_e) - f' = 0
+
+    (www.gnu.org/software/gsl/doc/html/roots.html)
+
+    Parameters
+    ----------
+    fill_fraction : double
+        The fraction of filled traps.
+
+    time_max : double
+        The maximum possible time, used to initialise the root finder. e.g. the
+        cumulative dwell time over all transfers.
+
+    workspace : gsl_integration_workspace* (opt.)
+        An existing GSL workspace memory handler for the integration, or nullptr
+        to create a new one.
+
+    Returns
+    -------
+    time_elapsed : double
+        The total time elapsed since the traps were filled, in the same units
+        as the trap timescales.
+*/
+struct TrICCo_te_from_ff_params {
+    TrapInstantCaptureContinuum* trap;
+    double fill_fraction;
+    gsl_integration_workspace* workspace;
+};
+
+double TrICCo_te_from_ff_root_function(double time_elapsed, void* params) {
+    struct TrICCo_te_from_ff_params* p = (struct TrICCo_te_from_ff_params*)params;
+
+    // To find time such that: fill_fraction(time) - fill_fraction = 0
+    return p->trap->fill_fraction_from_time_elapsed(time_elapsed, p->workspace) -
+           p->fill_fraction;
+}
+
+double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction(
+    double fill_fraction, double time_max, gsl_integration_workspace* workspace) {
+    // Completely full or empty, or unset watermark
+    if (fill_fraction == 1.0)
+        return 0.0;
+    else if (fill_fraction == 0.0)
+        return std::numeric_limits<double>::max();
+    else if (fill_fraction == -1.0)
+        return 0.0;
+
+    // Prep for the integration
+    if (!workspace) {
+        const int limit = 100;
+        workspace = gsl_integration_workspace_alloc(limit);
+    }
+
+    // Prep the root finder
+    double root;
+    int status;
+    const int max_iter = 100;
+    const double epsabs = 0.0;
+    const double epsrel = 1e-6;
+    const gsl_root_fsolver_type* T;
+    gsl_root_fsolver* s;
+    T = gsl_root_fsolver_brent;
+    s = gsl_root_fsolver_alloc(T);
+    struct TrICCo_te_from_ff_params params = {this, fill_fraction, workspace};
+    gsl_function F;
+    F.function = &TrICCo_te_from_ff_root_function;
+    F.params = &params;
+
+    // Bounding values
+    double x_lo = 0.0;
+    double x_hi = time_max;
+
+    // Iterate the root finder
+    int iter = 0;
+    gsl_root_fsolver_set(s, &F, x_lo, x_hi);
+    do {
+        iter++;
+        status = gsl_root_fsolver_iterate(s);
+        root = gsl_root_fsolver_root(s);
+        x_lo = gsl_root_fsolver_x_lower(s);
+        x_hi = gsl_root_fsolver_x_upper(s);
+        status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
+    } while (status == GSL_CONTINUE && iter < max_iter);
+
+    return root;
+}
+
+/*
+    Prepare tables of fill fractions and elapsed times for interpolation.
+
+    Use logarithmically spaced (decreasing) times to calculate the corresponding
+    (monotonically increasing) table of fill fractions. So no need to actually
+    store the elapsed times.
+
+    Parameters
+    ----------
+    time_min : double
+    time_max : double
+        The minimum and maximum elapsed times to set the table limits, e.g. a
+        single dwell time and the cumulative dwell time over all transfers.
+
+    n_intp : int
+        The number of interpolation values in the arrays.
+
+    Sets
+    ----
+    fill_fraction_table : std::valarray<double>
+        The array of fill fractions.
+
+    fill_min : double
+    fill_max : double
+        The fill fractions corresponding to the maximum and minimum times.
+
+    d_log_time : double
+        The logarithmic interval between successive (decreasing) times.
+*/
+void TrapInstantCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
+    double time_min, double time_max, int n_intp) {
+
+    // Prep for the GSL integration
+    const int limit = 100;
+    gsl_integration_workspace* workspace = gsl_integration_workspace_alloc(limit);
+
+    // Set up the arrays and limits
+    fill_fraction_table = std::valarray<double>(0.0, n_intp);
+    this->n_intp = n_intp;
+    this->time_min = time_min;
+    this->time_max = time_max;
+    fill_min = fill_fraction_from_time_elapsed(time_max, workspace);
+    fill_max = fill_fraction_from_time_elapsed(time_min, workspace);
+    d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
+    double time_i;
+
+    // Tabulate the values corresponding to the equally log-spaced inputs
+    for (int i = 0; i < n_intp; i++) {
+        time_i = exp(log(time_max) - i * d_log_time);
+        fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
+    }
+}
+
+/*
+    Calculate the fraction of filled traps after an amount of elapsed time,
+    using previously tabulated values for interpolation.
+
+    Parameters
+    ----------
+    time_elapsed : double
+        The total time elapsed since the traps were filled, in the same units
+        as the trap timescales.
+
+    Returns
+    -------
+    fill_fraction : double
+        The fraction of filled traps.
+*/
+double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed_table(
+    double time_elapsed) {
+    // Completely full or empty, or unset watermark
+    if (time_elapsed == 0.0)
+        return 1.0;
+    else if (time_elapsed >= std::numeric_limits<double>::max())
+        return 0.0;
+    else if (time_elapsed == -1.0)
+        return 0.0;
+
+    // Get the index and interpolation factor
+    double intp = (log(time_max) - log(time_elapsed)) / d_log_time;
+    int idx = (int)std::floor(intp);
+    intp = intp - idx;
+
+    // Extrapolate if outside the table
+    if (idx < 0) {
+        intp += idx;
+        idx = 0;
+    } else if (idx >= n_intp - 1) {
+        intp += idx - (n_intp - 2);
+        idx = n_intp - 2;
+    }
+
+    // Interpolate
+    double fill =
+        (1.0 - intp) * fill_fraction_table[idx] + intp * fill_fraction_table[idx + 1];
+
+    return clamp(fill, 0.0, 1.0);
+}
+
+/*
+    Calculate the amount of elapsed time from the fraction of filled traps,
+    using previously tabulated values for interpolation.
+
+    Parameters
+    ----------
+    fill_fraction : double
+        The fraction of filled traps.
+
+    Returns
+    -------
+    time_elapsed : double
+        The total time elapsed since the traps were filled, in the same units
+        as the trap timescales.
+*/
+double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction_table(
+    double fill_fraction) {
+    // Completely full or empty, or unset watermark
+    if (fill_fraction == 1.0)
+        return 0.0;
+    else if (fill_fraction == 0.0)
+        return std::numeric_limits<double>::max();
+    else if (fill_fraction == -1.0)
+        return 0.0;
+
+    // Find the index by searching the table
+    int idx = std::upper_bound(
+                  std::begin(fill_fraction_table), std::end(fill_fraction_table),
+                  fill_fraction) -
+              std::begin(fill_fraction_table) - 1;
+
+    // Extrapolate if outside the table
+    if (idx < 0)
+        idx = 0;
+    else if (idx == n_intp - 1)
+        idx = n_intp - 2;
+
+    // Interpolation factor
+    double intp = (fill_fraction - fill_fraction_table[idx]) /
+                  (fill_fraction_table[idx + 1] - fill_fraction_table[idx]);
+
+    // Interpolate
+    return exp(log(time_max) - (idx + intp) * d_log_time);
+}
+
+// ========
+// TrapSlowCaptureContinuum::
+// ========
+/*
+    Class TrapSlowCaptureContinuum.
+
+    For traps with a non-instant capture time, and a continuum (log-normal
+    distribution) of release timescales.
+
+    i.e. A combination of the TrapSlowCapture and TrapInstantCaptureContinuum models.
+
+    Parameters
+    ----------
+    density : double
+        The density of the trap species in a pixel.
+
+    release_timescale : double
+        The median release timescale of the traps, in the same units as the time
+        spent in each pixel or phase.
+
+    release_timescale_sigma : double
+        The sigma of release lifetimes of the traps.
+
+    capture_timescale : double
+        The capture timescale of the trap.
+*/
+TrapSlowCaptureContinuum::TrapSlowCaptureContinuum(
+    double density, double release_timescale, double release_timescale_sigma,
+    double capture_timescale)
+    : TrapInstantCapture(density, release_timescale),
+      release_timescale_sigma(release_timescale_sigma),
+      capture_timescale(capture_timescale) {
+
+    if (capture_timescale != 0.0)
+        capture_rate = 1.0 / capture_timescale;
+    else
+        capture_rate = 0.0;
+}
+
+/*
+    Same as TrapInstantCaptureContinuum
+*/
+struct TrSCCo_ff_from_te_params {
+    double time_elapsed;
+    double mu;
+    double sigma;
+};
+
+double TrSCCo_ff_from_te_integrand(double log_tau, void* params) {
+    struct TrSCCo_ff_from_te_params* p = (struct TrSCCo_ff_from_te_params*)params;
+
+    double tau = exp(log_tau);
+
+    // Distribution density
+    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (p->sigma * sqrt(2.0 * M_PI));
+
+    // To integrate: n(tau) * fill_frac(tau) dtau
+    return n * exp(-p->time_elapsed / tau);
+}
+
+double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
+    double time_elapsed, gsl_integration_workspace* workspace) {
+    // Completely full or empty, or unset watermark
+    if (time_elapsed == 0.0)
+        return 1.0;
+    else if (time_elapsed >= std::numeric_limits<double>::max())
+        return 0.0;
+    else if (time_elapsed == -1.0)
+        return 0.0;
+
+    // Prep the integration
+    double result, error;
+    const double min = log(release_timescale) - 10.0 * release_timescale_sigma;
+    const double max = log(release_timescale) + 10.0 * release_timescale_sigma;
+    const double epsabs = 0.0;
+    const double epsrel = 1e-6;
+    const int limit = 100;
+    const int key = GSL_INTEG_GAUSS51;
+    if (!workspace) {
+        workspace = gsl_integration_workspace_alloc(limit);
+    }
+    struct TrSCCo_ff_from_te_params params = {
+        time_elapsed, release_timescale, release_timescale_sigma};
+    gsl_function F;
+    F.function = &TrSCCo_ff_from_te_integrand;
+    F.params = &params;
+
+    // Integrate F.function from min to max
+    int status = gsl_integration_qag(
+        &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
+
+    if (status) error("Integration failed, status %d", status);
+
+    return result;
+}
+
+/*
+    Same as TrapInstantCaptureContinuum
+*/
+struct TrSCCo_te_from_ff_params {
+    TrapSlowCaptureContinuum* trap;
+    double fill_fraction;
+    gsl_integration_workspace* workspace;
+};
+
+double TrSCCo_te_from_ff_root_function(double time_elapsed, void* params) {
+    struct TrSCCo_te_from_ff_params* p = (struct TrSCCo_te_from_ff_params*)params;
+
+    // To find time such that: fill_fraction(time) - fill_fraction = 0
+    return p->trap->fill_fraction_from_time_elapsed(time_elapsed, p->workspace) -
+           p->fill_fraction;
+}
+
+double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction(
+    double fill_fraction, double time_max, gsl_integration_workspace* workspace) {
+    // Completely full or empty, or unset watermark
+    if (fill_fraction == 1.0)
+        return 0.0;
+    else if (fill_fraction == 0.0)
+        return std::numeric_limits<double>::max();
+    else if (fill_fraction == -1.0)
+        return 0.0;
+
+    // Prep for the integration
+    if (!workspace) {
+        const int limit = 100;
+        workspace = gsl_integration_workspace_alloc(limit);
+    }
+
+    // Prep the root finder
+    double root;
+    int status;
+    const int max_iter = 100;
+    const double epsabs = 0.0;
+    const double epsrel = 1e-6;
+    const gsl_root_fsolver_type* T;
+    gsl_root_fsolver* s;
+    T = gsl_root_fsolver_brent;
+    s = gsl_root_fsolver_alloc(T);
+    struct TrSCCo_te_from_ff_params params = {this, fill_fraction, workspace};
+    gsl_function F;
+    F.function = &TrSCCo_te_from_ff_root_function;
+    F.params = &params;
+
+    // Bounding values
+    double x_lo = 0.0;
+    double x_hi = time_max;
+
+    // Iterate the root finder
+    int iter = 0;
+    gsl_root_fsolver_set(s, &F, x_lo, x_hi);
+    do {
+        iter++;
+        status = gsl_root_fsolver_iterate(s);
+        root = gsl_root_fsolver_root(s);
+        x_lo = gsl_root_fsolver_x_lower(s);
+        x_hi = gsl_root_fsolver_x_upper(s);
+        status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
+    } while (status == GSL_CONTINUE && iter < max_iter);
+
+    return root;
+}
+
+/*
+    Same as TrapInstantCaptureContinuum
+*/
+void TrapSlowCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
+    double time_min, double time_max, int n_intp) {
+
+    // Prep for the GSL integration
+    const int limit = 100;
+    gsl_integration_workspace* workspace = gsl_integration_workspace_alloc(limit);
+
+    // Set up the arrays and limits
+    fill_fraction_table = std::valarray<double>(0.0, n_intp);
+    this->n_intp = n_intp;
+    this->time_min = time_min;
+    this->time_max = time_max;
+    fill_min = fill_fraction_from_time_elapsed(time_max, workspace);
+    fill_max = fill_fraction_from_time_elapsed(time_min, workspace);
+    d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
+    double time_i;
+
+    // Tabulate the values corresponding to the equally log-spaced inputs
+    for (int i = 0; i < n_intp; i++) {
+        time_i = exp(log(time_max) - i * d_log_time);
+        fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
+    }
+}
+
+/*
+    Same as TrapInstantCaptureContinuum
+*/
+double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed_table(
+    double time_elapsed) {
+    // Completely full or empty, or unset watermark
+    if (time_elapsed == 0.0)
+        return 1.0;
+    else if (time_elapsed >= std::numeric_limits<double>::max())
+        return 0.0;
+    else if (time_elapsed == -1.0)
+        return 0.0;
+
+    // Get the index and interpolation factor
+    double intp = (log(time_max) - log(time_elapsed)) / d_log_time;
+    int idx = (int)std::floor(intp);
+    intp = intp - idx;
+
+    // Extrapolate if outside the table
+    if (idx < 0) {
+        intp += idx;
+        idx = 0;
+    } else if (idx >= n_intp - 1) {
+        intp += idx - (n_intp - 2);
+        idx = n_intp - 2;
+    }
+
+    // Interpolate
+    double fill =
+        (1.0 - intp) * fill_fraction_table[idx] + intp * fill_fraction_table[idx + 1];
+
+    return clamp(fill, 0.0, 1.0);
+}
+
+/*
+    Same as TrapInstantCaptureContinuum
+*/
+double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction_table(
+    double fill_fraction) {
+    // Completely full or empty, or unset watermark
+    if (fill_fraction == 1.0)
+        return 0.0;
+    else if (fill_fraction == 0.0)
+        return std::numeric_limits<double>::max();
+    else if (fill_fraction == -1.0)
+        return 0.0;
+
+    // Find the index by searching the table
+    int idx = std::upper_bound(
+                  std::begin(fill_fraction_table), std::end(fill_fraction_table),
+                  fill_fraction) -
+              std::begin(fill_fraction_table) - 1;
+
+    // Extrapolate if outside the table
+    if (idx < 0)
+        idx = 0;
+    else if (idx == n_intp - 1)
+        idx = n_intp - 2;
+
+    // Interpolation factor
+    double intp = (fill_fraction - fill_fraction_table[idx]) /
+                  (fill_fraction_table[idx + 1] - fill_fraction_table[idx]);
+
+    // Interpolate
+    return exp(log(time_max) - (idx + intp) * d_log_time);
+}
+
+/*
+    Calculate the fraction of filled traps after slow-capture (and release).
+
+    Found by integrating the trap density distribution multiplied by the final
+    fill fraction, which must be calculated accounting for the dependency of
+    both the initial fill fraction and the fill probabilities on the release
+    lifetime distribution:
+        f(tau) = f_0(tau) f_f(tau) + (1 - f_0(tau)) f_e(tau)
+        f = int_0^inf n(tau) f(tau) dtau
+
+    Integrating from 0 to infinity can fail for very small mu and/or sigma, so
+    instead integrate over log(tau) within 10 sigma of log(mu) for a more
+    reliable and very close approximation.
+
+    (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
+
+    Parameters
+    ----------
+    time_elapsed : double
+        The approximate, effective time elapsed since the traps were filled, in
+        the same units as the trap timescales.
+
+    dwell_time : double
+        The time spent in this pixel or phase, in the same units as the trap
+        timescales.
+
+    workspace : gsl_integration_workspace* (opt.)
+        An existing GSL workspace memory handler for the integration, or nullptr
+        to create a new one.
+
+    Returns
+    -------
+    fill_fraction : double
+        The fraction of filled traps.
+*/
+struct TrSCCo_ff_after_sc_params {
+    double time_elapsed;
+    double mu;
+    double sigma;
+    double capture_rate;
+    double dwell_time;
+};
+
+double TrSCCo_ff_after_sc_integrand(double log_tau, void* params) {
+    struct TrSCCo_ff_after_sc_params* p = (struct TrSCCo_ff_after_sc_params*)params;
+
+    double tau = exp(log_tau);
+
+    // Distribution density
+    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (p->sigma * sqrt(2.0 * M_PI));
+
+    // Instant capture
+    if (p->capture_rate == 0.0) return n;
+
+    // Rates and fill probabilities
+    double release_rate = 1.0 / tau;
+    double total_rate = p->capture_rate + release_rate;
+    double exponential_factor = (1 - exp(-total_rate * p->dwell_time)) / total_rate;
+    double fill_probability_from_empty = p->capture_rate * exponential_factor;
+    double fill_probability_from_full = 1.0 - release_rate * exponential_factor;
+
+    // Initial fill fraction
+    double f_0;
+    if (p->time_elapsed == 0.0)
+        f_0 = 1.0;
+    else if (p->time_elapsed >= std::numeric_limits<double>::max())
+        f_0 = 0.0;
+    else
+        f_0 = exp(-p->time_elapsed * release_rate);
+
+    // To integrate: n(tau) * new_fill(tau) dtau
+    return n * (f_0 * fill_probability_from_full +
+                (1.0 - f_0) * fill_probability_from_empty);
+}
+
+double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
+    double time_elapsed, double dwell_time, gsl_integration_workspace* workspace) {
+    // Instant capture fills all traps completely, not just up to rounding errors
+    if (capture_rate == 0.0) return 1.0;
+
+    // Prep the integration
+    double result, error;
+    const double min = log(release_timescale) - 10.0 * release_timescale_sigma;
+    const double max = log(release_timescale) + 10.0 * release_timescale_sigma;
+    const double epsabs = 0.0;
+    const double epsrel = 1e-6;
+    const int limit = 100;
+    const int key = GSL_INTEG_GAUSS51;
+    if (!workspace) {
+        workspace = gsl_integration_workspace_alloc(limit);
+    }
+    struct TrSCCo_ff_after_sc_params params = {
+        time_elapsed, release_timescale, release_timescale_sigma, capture_rate,
+        dwell_time};
+    gsl_function F;
+    F.function = &TrSCCo_ff_after_sc_integrand;
+    F.params = &params;
+
+    // Integrate F.function from min to max
+    int status = gsl_integration_qag(
+        &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
+
+    if (status) error("Integration failed, status %d", status);
+
+    return result;
+}
+
+/*
+    Prepare tables of fill fractions and elapsed times for interpolation of
+    fill fractions after slow capture (and release).
+
+    Use logarithmically spaced (decreasing) times to calculate the corresponding
+    (monotonically increasing) table of fill fractions. So no need to actually
+    store the elapsed times.
+
+    Parameters
+    ----------
+    dwell_time : double
+        The time spent in this pixel or phase, in the same units as the trap
+        timescales.
+
+    time_min : double
+    time_max : double
+        The minimum and maximum elapsed times to set the table limits, e.g. a
+        single dwell time and the cumulative dwell time over all transfers.
+
+    n_intp : int
+        The number of interpolation values in the arrays.
+
+    Sets
+    ----
+    fill_fraction_capture_table : std::valarray<double>
+        The array of fill fractions.
+
+    fill_capture_long_time : double
+        The should-be-converged fill fraction from a very long elapsed time.
+*/
+void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
+    double dwell_time, double time_min, double time_max, int n_intp) {
+    // Prep for the GSL integration
+    const int limit = 100;
+    gsl_integration_workspace* workspace = gsl_integration_workspace_alloc(limit);
+
+    // Set up the arrays and limits
+    fill_fraction_capture_table = std::valarray<double>(0.0, n_intp);
+    this->n_intp = n_intp;
+    this->time_min = time_min;
+    this->time_max = time_max;
+    fill_capture_min =
+        fill_fraction_after_slow_capture(time_max, dwell_time, workspace);
+    fill_capture_max =
+        fill_fraction_after_slow_capture(time_min, dwell_time, workspace);
+    fill_capture_long_time =
+        fill_fraction_after_slow_capture(
+            std::numeric_limits<double>::max(), dwell_time, workspace);
+    d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
+    double time_i;
+
+    // Tabulate the values corresponding to the equally log-spaced inputs
+    for (int i = 0; i < n_intp; i++) {
+        time_i = exp(log(time_max) - i * d_log_time);
+        fill_fraction_capture_table[i] =
+            fill_fraction_after_slow_capture(time_i, dwell_time, workspace);
+    }
+}
+
+/*
+    Calculate the fraction of filled traps after slow-capture (and release),
+    using previously tabulated values for interpolation.
+
+    Parameters
+    ----------
+    time_elapsed : double
+        The approximate, effective time elapsed since the traps were filled, in
+        the same units as the trap timescales.
+
+    Returns
+    -------
+    fill_fraction : double
+        The fraction of filled traps.
+*/
+double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture_table(
+    double time_elapsed) {
+    // Completely full, very long elapsed time, or unset watermark
+    if (time_elapsed == 0.0)
+        return fill_capture_max;
+    else if (time_elapsed >= std::numeric_limits<double>::max())
+        return fill_capture_long_time;
+    else if (time_elapsed == -1.0)
+        return 0.0;
+
+    // Get the index and interpolation factor
+    double intp = (log(time_max) - log(time_elapsed)) / d_log_time;
+    int idx = (int)std::floor(intp);
+    intp = intp - idx;
+
+    // Extrapolate if outside the table
+    if (idx < 0) {
+        intp += idx;
+        idx = 0;
+    } else if (idx >= n_intp - 1) {
+        intp += idx - (n_intp - 2);
+        idx = n_intp - 2;
+    }
+
+    // Interpolate
+    double fill = (1.0 - intp) * fill_fraction_capture_table[idx] +
+                  intp * fill_fraction_capture_table[idx + 1];
+
+    return clamp(fill, 0.0, 1.0);
+}
diff --git a/src/util.cpp b/src/util.cpp
index 3c5ebcc..d2239f1 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -1,314 +1,314 @@
-
-#include "util.hpp"
-
-#include <math.h>
-#include <stdio.h>
-#include <sys/time.h>
-
-#include <string>
-#include <valarray>
-#include <vector>
-
-/*
-    Print the compiled version, set in the makefile.
-*/
-//extern std::string versionn() {
-//    return "hello1";
-//}
-
-std::string version_arctic() {
-#ifdef VERSION
-    return VERSION;
-#else
-    return "N/A";
-#endif
-}
-
-// ========
-// Printing
-// ========
-/*
-    Set the global verbosity parameter to control the amount of printed info:
-
-    0       No printing (except errors etc).
-    1       Standard.
-    2       Extra details.
-*/
-int verbosity = 1;
-void set_verbosity(int v) { verbosity = v; }
-
-/*
-    Print the compiled version, set in the makefile.
-*/
-void print_version() {
-//    std::string str = "\nArCTIc \n------ \n blah";
-//    char *cstr = new char[str.length() + 1];
-//    strcpy(cstr, str.c_str());
-//    char *version_string = str.c_str();
-//    printf(const char* c_str.(str));
-//    char* version_string = "\nArCTIc \n------ \n blah"; 
-//    // + version_arctic();
-//    print_v(1, "\nArCTIc \n------ \nblah");
-//    print_v(1, cstr);
-//    //print_v(1, "\nArCTIc \n------ \n"+version_arctic());
-#ifdef VERSION
-    print_v(1, "\nArCTIc v%s \n------ \n", VERSION);
-#else
-    print_v(1, "\nArCTIc \n------ \n");
-#endif
-}
-
-/*
-    Neatly print a 1D array.
-*/
-void print_array(std::valarray<double>& array) {
-    int n_col = array.size();
-
-    printf("[");
-    for (int i_col = 0; i_col < n_col; ++i_col) {
-        printf("%g", array[i_col]);
-        if (i_col != n_col - 1) printf(", ");
-    }
-    printf("]\n");
-
-    return;
-}
-
-/*
-    Neatly print a 1D array as 2D with n_col columns (2nd dimension).
-*/
-void print_array_2D(std::valarray<double>& array, int n_col) {
-    int n_tot = array.size();
-    int n_row = n_tot / n_col;
-
-    printf("[");
-    for (int i_row = 0; i_row < n_row; ++i_row) {
-        if (i_row == 0)
-            printf("[");
-        else
-            printf(" [");
-        for (int i_col = 0; i_col < n_col; ++i_col) {
-            printf("%g", array[i_row * n_col + i_col]);
-            if (i_col != n_col - 1)
-                printf(", ");
-            else if (i_row != n_row - 1)
-                printf("]\n");
-            else
-                printf("]]\n");
-        }
-    }
-
-    return;
-}
-
-/*
-    Neatly print an actual 2D array.
-*/
-void print_array_2D(std::valarray<std::valarray<double> >& array) {
-    int n_row = array.size();
-    int n_col;
-
-    printf("[");
-    for (int i_row = 0; i_row < n_row; ++i_row) {
-        n_col = array[i_row].size();
-
-        if (i_row == 0)
-            printf("[");
-        else
-            printf(" [");
-
-        for (int i_col = 0; i_col < n_col; ++i_col) {
-            printf("%g", array[i_row][i_col]);
-            if (i_col != n_col - 1)
-                printf(", ");
-            else if (i_row != n_row - 1)
-                printf("]\n");
-            else
-                printf("]]\n");
-        }
-    }
-
-    return;
-}
-
-// ========
-// Arrays
-// ========
-/*
-    Flatten a 2D valarray into a 1D vector. Useful for Catch2 test comparisons.
-*/
-std::vector<double> flatten(std::valarray<std::valarray<double> >& array) {
-    std::vector<double> vector;
-    int n_row = array.size();
-    int n_col;
-
-    for (int i_row = 0; i_row < n_row; i_row++) {
-        n_col = array[i_row].size();
-
-        for (int i_col = 0; i_col < n_col; i_col++) {
-            vector.push_back(array[i_row][i_col]);
-        }
-    }
-
-    return vector;
-}
-
-/*
-    Basic equivalent of numpy.arange().
-*/
-std::valarray<double> arange(double start, double stop, double step) {
-    // Create the array more easily as a vector
-    std::vector<double> tmp_array;
-    for (double value = start; value < stop; value += step) tmp_array.push_back(value);
-
-    // Convert to a valarray
-    std::valarray<double> array(tmp_array.data(), tmp_array.size());
-    return array;
-}
-
-/*
-    Transpose a 2D valarray.
-*/
-std::valarray<std::valarray<double> > transpose(
-    std::valarray<std::valarray<double> >& array) {
-
-    // Create the opposite-shape array
-    int n_rows = array.size();
-    int n_columns = array[0].size();
-    std::valarray<std::valarray<double> > array_T(
-        std::valarray<double>(0.0, n_rows), n_columns);
-
-    // Copy the values
-    for (int i_row = 0; i_row < n_rows; i_row++) {
-        for (int i_col = 0; i_col < n_columns; i_col++) {
-            array_T[i_col][i_row] = array[i_row][i_col];
-        }
-    }
-
-    return array_T;
-}
-
-// ========
-// I/O
-// ========
-/*
-    Load a 2D image from a text file.
-
-    File contents:
-        n_rows  n_columns
-        row_0_column_0  row_0_column_1  ...  row_0_column_n
-        row_1_column_0  ...             ...  ...
-        ...             ...             ...  ...
-        row_n_column 0  ...             ...
-
-    Parameters
-    ----------
-    filename : str
-        The path to the file to load.
-
-    Returns
-    -------
-    image : std::valarray<std::valarray<double> >
-        The loaded 2D image array.
-*/
-std::valarray<std::valarray<double> > load_image_from_txt(const char* filename) {
-    FILE* f = fopen(filename, "r");
-    if (!f) error("Failed to open image file '%s'", filename);
-
-    // Load image dimensions
-    int n_rows;
-    int n_columns;
-    int c = fscanf(f, "%d %d", &n_rows, &n_columns);
-    if (c != 2) error("Failed to read n_rows, n_columns '%s'", filename);
-
-    // Load image data
-    std::valarray<std::valarray<double> > image(
-        std::valarray<double>(n_columns), n_rows);
-    for (int i_row = 0; i_row < n_rows; i_row++) {
-        for (int i_col = 0; i_col < n_columns; i_col++) {
-            c = fscanf(f, "%lf", &image[i_row][i_col]);
-            if (c != 1)
-                error("Failed to read image [%d, %d] '%s'", i_row, i_col, filename);
-        }
-    }
-
-    fclose(f);
-
-    return image;
-}
-
-/*
-    Save a 2D image to a text file.
-
-    File contents:
-        n_rows  n_columns
-        row_0_column_0  row_0_column_1  ...  row_0_column_n
-        row_1_column_0  ...             ...  ...
-        ...             ...             ...  ...
-        row_n_column 0  ...             ...
-
-    Parameters
-    ----------
-    filename : str
-        The path to the file to load.
-
-    image : std::valarray<std::valarray<double> >
-        The 2D image array to save.
-*/
-void save_image_to_txt(
-    const char* filename, std::valarray<std::valarray<double> > image) {
-    FILE* f = fopen(filename, "w");
-    if (!f) error("Failed to open file '%s'", filename);
-
-    // Save image dimensions
-    int n_rows = image.size();
-    int n_columns = image[0].size();
-    fprintf(f, "%d %d \n", n_rows, n_columns);
-
-    // Save image data
-    for (int i_row = 0; i_row < n_rows; i_row++) {
-        for (int i_col = 0; i_col < n_columns; i_col++) {
-            fprintf(f, "%lf ", image[i_row][i_col]);
-        }
-        fprintf(f, "\n");
-    }
-
-    fclose(f);
-
-    return;
-}
-
-// ========
-// Misc
-// ========
-/*
-    Restrict a value to between two limits.
-*/
-double clamp(double value, double minimum, double maximum) {
-    if (value < minimum)
-        return minimum;
-    else if (value > maximum)
-        return maximum;
-    else
-        return value;
-}
-
-/*
-    Calculate the number of elapsed seconds between two times.
-*/
-double gettimelapsed(struct timeval start, struct timeval end) {
-    double seconds;
-    double microseconds;
-
-    seconds = end.tv_sec - start.tv_sec;
-    microseconds = end.tv_usec - start.tv_usec;
-
-    if (microseconds < 0.0) {
-        seconds -= 1.0;
-        microseconds = 1e6 + microseconds;
-    }
-
-    microseconds /= 1e6;
-
-    return seconds + microseconds;
-}
+
+#include "util.hpp"
+
+#include <math.h>
+#include <stdio.h>
+#include <sys/time.h>
+
+#include <string>
+#include <valarray>
+#include <vector>
+
+/*
+    Print the compiled version, set in the makefile.
+*/
+//extern std::string versionn() {
+//    return "hello1";
+//}
+
+std::string version_arctic() {
+#ifdef VERSION
+    return VERSION;
+#else
+    return "N/A";
+#endif
+}
+
+// ========
+// Printing
+// ========
+/*
+    Set the global verbosity parameter to control the amount of printed info:
+
+    0       No printing (except errors etc).
+    1       Standard.
+    2       Extra details.
+*/
+int verbosity = 1;
+void set_verbosity(int v) { verbosity = v; }
+
+/*
+    Print the compiled version, set in the makefile.
+*/
+void print_version() {
+//    std::string str = "\nArCTIc \n------ \n blah";
+//    char *cstr = new char[str.length() + 1];
+//    strcpy(cstr, str.c_str());
+//    char *version_string = str.c_str();
+//    printf(const char* c_str.(str));
+//    char* version_string = "\nArCTIc \n------ \n blah"; 
+//    // + version_arctic();
+//    print_v(1, "\nArCTIc \n------ \nblah");
+//    print_v(1, cstr);
+//    //print_v(1, "\nArCTIc \n------ \n"+version_arctic());
+#ifdef VERSION
+    print_v(1, "\nArCTIc v%s \n------ \n", VERSION);
+#else
+    print_v(1, "\nArCTIc \n------ \n");
+#endif
+}
+
+/*
+    Neatly print a 1D array.
+*/
+void print_array(std::valarray<double>& array) {
+    int n_col = array.size();
+
+    printf("[");
+    for (int i_col = 0; i_col < n_col; ++i_col) {
+        printf("%g", array[i_col]);
+        if (i_col != n_col - 1) printf(", ");
+    }
+    printf("]\n");
+
+    return;
+}
+
+/*
+    Neatly print a 1D array as 2D with n_col columns (2nd dimension).
+*/
+void print_array_2D(std::valarray<double>& array, int n_col) {
+    int n_tot = array.size();
+    int n_row = n_tot / n_col;
+
+    printf("[");
+    for (int i_row = 0; i_row < n_row; ++i_row) {
+        if (i_row == 0)
+            printf("[");
+        else
+            printf(" [");
+        for (int i_col = 0; i_col < n_col; ++i_col) {
+            printf("%g", array[i_row * n_col + i_col]);
+            if (i_col != n_col - 1)
+                printf(", ");
+            else if (i_row != n_row - 1)
+                printf("]\n");
+            else
+                printf("]]\n");
+        }
+    }
+
+    return;
+}
+
+/*
+    Neatly print an actual 2D array.
+*/
+void print_array_2D(std::valarray<std::valarray<double> >& array) {
+    int n_row = array.size();
+    int n_col;
+
+    printf("[");
+    for (int i_row = 0; i_row < n_row; ++i_row) {
+        n_col = array[i_row].size();
+
+        if (i_row == 0)
+            printf("[");
+        else
+            printf(" [");
+
+        for (int i_col = 0; i_col < n_col; ++i_col) {
+            printf("%g", array[i_row][i_col]);
+            if (i_col != n_col - 1)
+                printf(", ");
+            else if (i_row != n_row - 1)
+                printf("]\n");
+            else
+                printf("]]\n");
+        }
+    }
+
+    return;
+}
+
+// ========
+// Arrays
+// ========
+/*
+    Flatten a 2D valarray into a 1D vector. Useful for Catch2 test comparisons.
+*/
+std::vector<double> flatten(std::valarray<std::valarray<double> >& array) {
+    std::vector<double> vector;
+    int n_row = array.size();
+    int n_col;
+
+    for (int i_row = 0; i_row < n_row; i_row++) {
+        n_col = array[i_row].size();
+
+        for (int i_col = 0; i_col < n_col; i_col++) {
+            vector.push_back(array[i_row][i_col]);
+        }
+    }
+
+    return vector;
+}
+
+/*
+    Basic equivalent of numpy.arange().
+*/
+std::valarray<double> arange(double start, double stop, double step) {
+    // Create the array more easily as a vector
+    std::vector<double> tmp_array;
+    for (double value = start; value < stop; value += step) tmp_array.push_back(value);
+
+    // Convert to a valarray
+    std::valarray<double> array(tmp_array.data(), tmp_array.size());
+    return array;
+}
+
+/*
+    Transpose a 2D valarray.
+*/
+std::valarray<std::valarray<double> > transpose(
+    std::valarray<std::valarray<double> >& array) {
+
+    // Create the opposite-shape array
+    int n_rows = array.size();
+    int n_columns = array[0].size();
+    std::valarray<std::valarray<double> > array_T(
+        std::valarray<double>(0.0, n_rows), n_columns);
+
+    // Copy the values
+    for (int i_row = 0; i_row < n_rows; i_row++) {
+        for (int i_col = 0; i_col < n_columns; i_col++) {
+            array_T[i_col][i_row] = array[i_row][i_col];
+        }
+    }
+
+    return array_T;
+}
+
+// ========
+// I/O
+// ========
+/*
+    Load a 2D image from a text file.
+
+    File contents:
+        n_rows  n_columns
+        row_0_column_0  row_0_column_1  ...  row_0_column_n
+        row_1_column_0  ...             ...  ...
+        ...             ...             ...  ...
+        row_n_column 0  ...             ...
+
+    Parameters
+    ----------
+    filename : str
+        The path to the file to load.
+
+    Returns
+    -------
+    image : std::valarray<std::valarray<double> >
+        The loaded 2D image array.
+*/
+std::valarray<std::valarray<double> > load_image_from_txt(const char* filename) {
+    FILE* f = fopen(filename, "r");
+    if (!f) error("Failed to open image file '%s'", filename);
+
+    // Load image dimensions
+    int n_rows;
+    int n_columns;
+    int c = fscanf(f, "%d %d", &n_rows, &n_columns);
+    if (c != 2) error("Failed to read n_rows, n_columns '%s'", filename);
+
+    // Load image data
+    std::valarray<std::valarray<double> > image(
+        std::valarray<double>(n_columns), n_rows);
+    for (int i_row = 0; i_row < n_rows; i_row++) {
+        for (int i_col = 0; i_col < n_columns; i_col++) {
+            c = fscanf(f, "%lf", &image[i_row][i_col]);
+            if (c != 1)
+                error("Failed to read image [%d, %d] '%s'", i_row, i_col, filename);
+        }
+    }
+
+    fclose(f);
+
+    return image;
+}
+
+/*
+    Save a 2D image to a text file.
+
+    File contents:
+        n_rows  n_columns
+        row_0_column_0  row_0_column_1  ...  row_0_column_n
+        row_1_column_0  ...             ...  ...
+        ...             ...             ...  ...
+        row_n_column 0  ...             ...
+
+    Parameters
+    ----------
+    filename : str
+        The path to the file to load.
+
+    image : std::valarray<std::valarray<double> >
+        The 2D image array to save.
+*/
+void save_image_to_txt(
+    const char* filename, std::valarray<std::valarray<double> > image) {
+    FILE* f = fopen(filename, "w");
+    if (!f) error("Failed to open file '%s'", filename);
+
+    // Save image dimensions
+    int n_rows = image.size();
+    int n_columns = image[0].size();
+    fprintf(f, "%d %d \n", n_rows, n_columns);
+
+    // Save image data
+    for (int i_row = 0; i_row < n_rows; i_row++) {
+        for (int i_col = 0; i_col < n_columns; i_col++) {
+            fprintf(f, "%lf ", image[i_row][i_col]);
+        }
+        fprintf(f, "\n");
+    }
+
+    fclose(f);
+
+    return;
+}
+
+// ========
+// Misc
+// ========
+/*
+    Restrict a value to between two limits.
+*/
+double clamp(double value, double minimum, double maximum) {
+    if (value < minimum)
+        return minimum;
+    else if (value > maximum)
+        return maximum;
+    else
+        return value;
+}
+
+/*
+    Calculate the number of elapsed seconds between two times.
+*/
+double gettimelapsed(struct timeval start, struct timeval end) {
+    double seconds;
+    double microseconds;
+
+    seconds = end.tv_sec - start.tv_sec;
+    microseconds = end.tv_usec - start.tv_usec;
+
+    if (microseconds < 0.0) {
+        seconds -= 1.0;
+        microseconds = 1e6 + microseconds;
+    }
+
+    microseconds /= 1e6;
+
+    return seconds + microseconds;
+}
-- 
2.43.0


From 708a9369a369baf447acd58e1d5bf74a94194c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 36/45] fix: pixel bounce of images of unsigned integers

The change of signal between neighbouring pixels was computed in the type of
the image, and wrapped around for decreasing signals in unsigned integers.
---
 python/arcticpy/pixel_bounce.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 80bac09..00cf7aa 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -93,6 +93,9 @@ class PixelBounce:
         bias : [[float]]
             The output bias image array of pixel values.
         """
+        # Differences between pixels would wrap around in unsigned integers
+        image = np.asarray(image, dtype=np.double)
+
         # Initialise bias offset voltage, which should settle during prescan
         # of each row
         bias = np.zeros(image.shape)
@@ -294,7 +297,7 @@ def add_pixel_bounce(
         raise Exception("Must provide a list of pixel bounce objects")
 
     # Idea bias level
-    bias = np.zeros(image.shape)
+    bias = np.zeros(np.shape(image))
 
     # Compute bias after it has been perturbed by capacitance with the image signal
     # Apply each pixel bounce capaitance separately, so their order has no effect
-- 
2.43.0


From 95403e059eef5cf7321c2bff5db852387f00253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 37/45] fix: covariance matrices that are not square wrapped
 around the edges of the image, transposed

---
 python/arcticpy/read_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 3b99fd6..5db1391 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -1055,7 +1055,7 @@ class CovarianceMatrix(np.ndarray):
 
         # Remove the outside edge of an image that could be rolled over in the next copy, 
         # so the two copies stay the same size
-        x = subimage[roll_border[0]:-roll_border[1], roll_border[0]:-roll_border[1]].flatten()
+        x = subimage[roll_border[0]:-roll_border[0], roll_border[1]:-roll_border[1]].flatten()
         xbar = np.mean(x)
 
         # Loop over all pixel offsets
@@ -1063,7 +1063,7 @@ class CovarianceMatrix(np.ndarray):
             for j in range(-middle[1], middle[1] + 1, 1):
 
                 # Shift the pixels in a second copy of the image
-                y = np.roll(subimage, (-j, -i), axis=(0, 1))[roll_border[0]:-roll_border[1], roll_border[0]:-roll_border[1]].flatten()
+                y = np.roll(subimage, (-i, -j), axis=(0, 1))[roll_border[0]:-roll_border[0], roll_border[1]:-roll_border[1]].flatten()
                 ybar = np.mean(y)
                 
                 # Calcluate covariance between shifted pixels
-- 
2.43.0


From 5b77b92af14f2e39d3d0bca6fbb47affad6f2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 38/45] fix: sums of covariance in the ring left out its last
 row and column

---
 python/arcticpy/read_noise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 5db1391..1e50080 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -1110,15 +1110,15 @@ class CovarianceMatrix(np.ndarray):
     def ring(self): # The sum of all covariance up to n pixels from autocorrelation
         n=1
         middle = self.middle
-        subarray = self[max(middle[0]-n,0):min(middle[0]+n,self.shape[0]),
-                        max(middle[1]-n,0):min(middle[1]+n,self.shape[1])]
+        subarray = self[max(middle[0]-n,0):min(middle[0]+n+1,self.shape[0]),
+                        max(middle[1]-n,0):min(middle[1]+n+1,self.shape[1])]
         return subarray.sum() - self.autocorrelation
     
     @property
     def ringabs(self): # The sum of all |covariance| up to n pixels from autocorrelation
         n=1
         middle = self.middle
-        subarray = self[max(middle[0]-n,0):min(middle[0]+n,self.shape[0]),
-                        max(middle[1]-n,0):min(middle[1]+n,self.shape[1])]
+        subarray = self[max(middle[0]-n,0):min(middle[0]+n+1,self.shape[0]),
+                        max(middle[1]-n,0):min(middle[1]+n+1,self.shape[1])]
         return np.abs(subarray).sum() - self.autocorrelation
 
-- 
2.43.0


From ceb118a5ae73231b7a8e58dba7c1516cee6d1cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 39/45] fix: Poisson-sampled trap density lost the trap's
 fractional volumes

---
 python/arcticpy/traps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/arcticpy/traps.py b/python/arcticpy/traps.py
index f5e2d75..5719fc6 100644
--- a/python/arcticpy/traps.py
+++ b/python/arcticpy/traps.py
@@ -61,7 +61,10 @@ class TrapInstantCapture(AbstractTrap):
         poisson_density_per_pixel = poisson_density_pixels / total_pixels
 
         return TrapInstantCapture(
-            density=poisson_density_per_pixel, release_timescale=self.release_timescale
+            density=poisson_density_per_pixel,
+            release_timescale=self.release_timescale,
+            fractional_volume_none_exposed=self.fractional_volume_none_exposed,
+            fractional_volume_full_exposed=self.fractional_volume_full_exposed,
         )
 
 
-- 
2.43.0


From 04857cf965e0a715f8b958d1716da66d78ae522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 40/45] fix: instant-capture manager copied before its flag was
 set

---
 include/trap_managers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trap_managers.hpp b/include/trap_managers.hpp
index e45c56c..d897705 100644
--- a/include/trap_managers.hpp
+++ b/include/trap_managers.hpp
@@ -65,7 +65,7 @@ class TrapManagerInstantCapture : public TrapManagerBase {
     void set_fill_probabilities();
     void setup();
 
-    bool any_non_uniform_traps;
+    bool any_non_uniform_traps = false;
 
     double n_electrons_released();
     void update_watermarks_capture(
-- 
2.43.0


From bc24ccc51ad2389faeab82b0db74e5d03dafa716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:13 +0000
Subject: [PATCH 41/45] fix: benchmark whose image cannot be downloaded exits
 with success

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 64e0cc5..becc473 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -117,7 +117,7 @@ int run_benchmark() {
             "wget http://www.astro.dur.ac.uk/~rjm/ArCTIc/benchmark_2k2k_image.txt";
         printf("%s\n", command);
         int status = system(command);
-        if (status != 0) exit(status);
+        if (status != 0) exit(1);
     } else
         fclose(f);
 
-- 
2.43.0


From 60cb43bc93f1569c405dced15103f822cc955f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 42/45] fix: an image that could not be written to its file was
 taken as saved

---
 src/util.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index d2239f1..7fe107d 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -273,7 +273,9 @@ void save_image_to_txt(
         fprintf(f, "\n");
     }
 
-    fclose(f);
+    // The data may only be written, or fail to be, as the file is closed
+    bool failed = ferror(f) != 0;
+    if ((fclose(f) != 0) || failed) error("Failed to write file '%s'", filename);
 
     return;
 }
-- 
2.43.0


From 179e5d9d5fe31d4250931208fb34994316a63eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:45 +0000
Subject: [PATCH 43/45] fix: windows beyond the image were clocked, reading
 outside its arrays

---
 src/cti.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index d1afdfa..ce7ae4b 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -86,6 +86,17 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
     if (row_stop == -1) row_stop = n_rows;
     if (column_stop == -1) column_stop = n_columns;
 
+    // Make sure that the active window is part of the image
+    if ((row_start < 0) || (row_start > row_stop) || (row_stop > (int)n_rows))
+        error(
+            "The active rows [%d to %d] are not within the image's %d rows", row_start,
+            row_stop, n_rows);
+    if ((column_start < 0) || (column_start > column_stop) ||
+        (column_stop > (int)n_columns))
+        error(
+            "The active columns [%d to %d] are not within the image's %d columns",
+            column_start, column_stop, n_columns);
+
     // Number of active rows and columns
     unsigned int n_active_rows = row_stop - row_start;
     unsigned int n_active_columns = column_stop - column_start;
-- 
2.43.0


From 491a2d49b4848271d1ff4128450d875adbcb43fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:35 +0000
Subject: [PATCH 44/45] fix: negative express, window offsets and numbers of
 pumps read outside arrays

---
 src/cti.cpp | 6 ++++++
 src/roe.cpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index ce7ae4b..f4a5daf 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -86,6 +86,12 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
     if (row_stop == -1) row_stop = n_rows;
     if (column_stop == -1) column_stop = n_columns;
 
+    // Make sure that the numbers of passes and of transfers before the image make sense
+    if ((express < 0) || (row_offset < 0))
+        error(
+            "The express (%d) and window offset (%d) must not be negative", express,
+            row_offset);
+
     // Make sure that the active window is part of the image
     if ((row_start < 0) || (row_start > row_stop) || (row_stop > (int)n_rows))
         error(
diff --git a/src/roe.cpp b/src/roe.cpp
index 5ce89f6..eea8829 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -852,6 +852,7 @@ ROETrapPumping::ROETrapPumping(
     type = roe_type_trap_pumping;
     this->n_pumps = n_pumps;
 
+    if (n_pumps < 1) error("The number of pumps (%d) must be positive", n_pumps);
     if (n_steps % 2 != 0)
         error("The number of steps for trap pumping (%d) must be even", n_steps);
     n_phases = n_steps / 2;
-- 
2.43.0


From 29a872db1f22ce33ed93135cadb3376a0806f43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:33 +0000
Subject: [PATCH 45/45] fix: clocking a window without pixels wrote outside the
 arrays of the traps

---
 src/cti.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index f4a5daf..8df5b4a 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -126,6 +126,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
         error(
             "Number of CCD phases (%d) and ROE phases (%d) don't match.", ccd->n_phases,
             roe->n_phases);
+    // Nothing to do without active pixels
+    if ((n_active_rows == 0) || (n_active_columns == 0)) return image;
+
     if (roe->type == roe_type_trap_pumping) {
         // Account for the repeated transfers of the same pixel
         max_n_transfers *= roe->n_express_passes;
-- 
2.43.0

