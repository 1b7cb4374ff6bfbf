// generated by c03b.cpp -DGEN
static const float profile[36][3][5][3][2] = {
{{{{2.17e-19,2.17e-19},{1.08e-19,1.08e-19},{3.25e-19,2.71e-19},},{{8.67e-19,2.17e-19},{4.34e-19,1.08e-19},{4.34e-19,1.08e-19},},{{1.08e-19,2.71e-20},{4.34e-19,5.42e-20},{4.34e-19,6.78e-20},},{{3.93e-19,2.03e-19},{4.34e-19,2.03e-19},{1.73e-18,5.42e-20},},{{1.33e-15,8.33e-17},{1.78e-15,8.33e-17},{2.22e-16,1.39e-17},},},
{{{2.17e-19,1.08e-19},{2.17e-19,5.42e-20},{2.71e-20,2.71e-20},},{{2.17e-19,1.08e-19},{1.08e-19,0.00e+00},{4.34e-19,1.08e-19},},{{2.71e-20,2.71e-20},{2.17e-19,2.71e-20},{5.42e-19,6.78e-20},},{{4.34e-19,4.07e-20},{4.34e-19,5.42e-20},{7.59e-19,4.07e-20},},{{2.78e-17,8.67e-19},{1.39e-17,4.34e-19},{1.04e-17,2.17e-19},},},
{{{2.71e-20,0.00e+00},{0.00e+00,2.71e-20},{2.17e-19,4.07e-20},},{{2.17e-19,5.42e-20},{2.17e-19,8.13e-20},{1.08e-19,1.36e-20},},{{3.25e-19,5.42e-20},{3.25e-19,6.78e-20},{2.17e-19,2.71e-20},},{{4.34e-19,0.00e+00},{4.34e-19,0.00e+00},{1.73e-18,3.39e-20},},{{6.94e-18,1.08e-19},{3.47e-18,1.08e-19},{8.67e-19,2.71e-20},},},
},
{{{{1.84e-14,1.75e-13},{1.26e-11,6.31e-12},{7.99e-14,4.77e-14},},{{1.98e-14,1.88e-13},{1.37e-11,6.82e-12},{8.59e-14,4.98e-14},},{{1.56e-14,1.48e-13},{1.04e-11,5.24e-12},{7.24e-14,4.29e-14},},{{3.97e-15,3.77e-14},{2.00e-12,1.12e-12},{3.15e-14,1.88e-14},},{{5.73e-14,5.44e-13},{4.66e-11,2.19e-11},{3.97e-13,9.75e-14},},},
{{{2.22e-18,2.14e-17},{6.15e-15,1.54e-15},{3.90e-17,1.16e-17},},{{2.49e-18,2.18e-17},{6.28e-15,1.57e-15},{3.92e-17,1.17e-17},},{{2.09e-18,2.04e-17},{5.86e-15,1.47e-15},{3.79e-17,1.13e-17},},{{1.59e-18,1.49e-17},{4.02e-15,1.03e-15},{2.99e-17,9.25e-18},},{{6.94e-18,2.82e-17},{8.63e-15,2.13e-15},{5.55e-17,1.39e-17},},},
{{{1.08e-19,2.71e-20},{3.01e-18,3.76e-19},{1.08e-19,1.36e-20},},{{2.17e-19,5.42e-20},{3.20e-18,3.79e-19},{3.25e-19,2.71e-20},},{{2.17e-19,2.71e-20},{3.04e-18,3.73e-19},{1.63e-19,2.03e-20},},{{8.67e-19,2.54e-21},{4.34e-18,3.44e-19},{8.67e-19,1.02e-20},},{{6.51e-19,5.42e-20},{2.17e-19,4.13e-19},{1.73e-18,2.71e-20},},},
},
{{{{1.37e-10,4.29e-11},{1.37e-10,1.18e-08},{4.55e-10,9.00e-11},},{{1.36e-10,4.61e-11},{1.36e-10,1.28e-08},{4.82e-10,9.41e-11},},{{1.35e-10,3.63e-11},{1.35e-10,9.83e-09},{3.99e-10,8.11e-11},},{{7.11e-11,9.25e-12},{7.11e-11,2.11e-09},{1.34e-10,3.54e-11},},{{2.56e-10,1.34e-10},{8.76e-10,4.11e-08},{1.12e-09,1.85e-10},},},
{{{2.62e-13,2.10e-14},{2.62e-13,2.31e-11},{8.90e-13,1.74e-13},},{{2.62e-13,2.14e-14},{2.62e-13,2.36e-11},{9.03e-13,1.76e-13},},{{2.62e-13,2.01e-14},{2.62e-13,2.21e-11},{8.61e-13,1.70e-13},},{{2.49e-13,1.46e-14},{2.49e-13,1.55e-11},{6.67e-13,1.39e-13},},{{2.44e-13,2.81e-14},{2.44e-13,3.20e-11},{1.12e-12,2.09e-13},},},
{{{5.11e-16,1.02e-17},{5.10e-16,4.52e-14},{1.74e-15,3.40e-16},},{{5.10e-16,1.03e-17},{5.10e-16,4.54e-14},{1.74e-15,3.41e-16},},{{5.11e-16,1.01e-17},{5.11e-16,4.47e-14},{1.72e-15,3.38e-16},},{{5.11e-16,9.37e-18},{5.12e-16,4.09e-14},{1.62e-15,3.21e-16},},{{5.10e-16,1.10e-17},{5.07e-16,4.90e-14},{1.84e-15,3.56e-16},},},
},
{{{{3.04e-07,1.39e-08},{3.04e-07,3.02e-07},{2.60e-08,2.30e-09},},{{3.48e-07,1.55e-08},{3.48e-07,3.26e-07},{2.80e-08,2.40e-09},},{{2.18e-07,1.06e-08},{2.18e-07,2.50e-07},{2.20e-08,2.07e-09},},{{1.07e-09,7.40e-10},{1.07e-09,5.36e-08},{4.90e-09,9.03e-10},},{{2.17e-06,7.56e-08},{2.17e-06,1.05e-06},{7.90e-08,4.71e-09},},},
{{{2.37e-09,2.71e-11},{2.37e-09,1.18e-09},{2.04e-10,8.88e-12},},{{2.45e-09,2.79e-11},{2.45e-09,1.20e-09},{2.07e-10,8.98e-12},},{{2.19e-09,2.54e-11},{2.19e-09,1.12e-09},{1.95e-10,8.65e-12},},{{1.14e-09,1.50e-11},{1.14e-09,7.87e-10},{1.41e-10,7.09e-12},},{{4.10e-09,4.28e-11},{4.10e-09,1.63e-09},{2.73e-10,1.07e-11},},},
{{{1.85e-11,5.30e-14},{1.85e-11,4.60e-12},{1.59e-12,3.46e-14},},{{1.87e-11,5.34e-14},{1.87e-11,4.62e-12},{1.60e-12,3.47e-14},},{{1.82e-11,5.21e-14},{1.82e-11,4.54e-12},{1.57e-12,3.44e-14},},{{1.56e-11,4.59e-14},{1.56e-11,4.16e-12},{1.45e-12,3.27e-14},},{{2.13e-11,5.96e-14},{2.13e-11,4.99e-12},{1.71e-12,3.62e-14},},},
},
{{{{4.58e-07,7.87e-06},{5.04e-07,6.84e-07},{3.45e-06,1.69e-07},},{{5.10e-07,8.46e-06},{1.80e-06,8.59e-07},{3.99e-06,1.86e-07},},{{3.55e-07,6.66e-06},{4.11e-06,3.66e-07},{2.40e-06,1.33e-07},},{{3.73e-08,1.70e-06},{1.90e-06,1.24e-07},{7.40e-07,1.08e-08},},{{2.40e-06,2.45e-05},{1.96e-04,1.02e-05},{2.28e-05,7.09e-07},},},
{{{3.58e-09,6.15e-08},{1.41e-08,5.36e-09},{1.08e-07,1.32e-09},},{{3.68e-09,6.26e-08},{3.68e-09,5.69e-09},{1.12e-07,1.35e-09},},{{3.36e-09,5.90e-08},{4.92e-08,4.65e-09},{9.91e-08,1.25e-09},},{{2.05e-09,4.28e-08},{1.87e-07,9.87e-10},{4.61e-08,7.80e-10},},{{5.56e-09,8.25e-08},{4.17e-07,1.26e-08},{1.89e-07,1.96e-09},},},
{{{2.80e-11,4.80e-10},{4.29e-10,4.19e-11},{3.38e-09,1.03e-11},},{{2.82e-11,4.83e-10},{3.03e-10,4.26e-11},{3.41e-09,1.04e-11},},{{2.75e-11,4.75e-10},{7.18e-10,4.05e-11},{3.31e-09,1.02e-11},},{{2.44e-11,4.39e-10},{2.60e-09,3.06e-11},{2.80e-09,9.10e-12},},{{3.13e-11,5.17e-10},{1.94e-09,5.31e-11},{3.92e-09,1.14e-11},},},
},
{{{{5.31e-08,3.73e-08},{5.31e-08,1.11e-05},{3.18e-06,1.07e-07},},{{7.95e-08,4.54e-08},{7.95e-08,1.20e-05},{3.51e-06,1.17e-07},},{{2.57e-07,2.23e-08},{2.57e-07,9.19e-06},{2.50e-06,8.68e-08},},{{2.40e-07,7.21e-09},{2.40e-07,1.97e-06},{3.20e-07,3.31e-08},},{{8.61e-06,4.19e-07},{8.61e-06,3.84e-05},{1.47e-05,4.12e-07},},},
{{{7.78e-10,1.45e-10},{7.78e-10,8.64e-08},{9.95e-08,8.37e-10},},{{3.32e-10,1.53e-10},{3.32e-10,8.82e-08},{1.02e-07,8.55e-10},},{{1.73e-09,1.29e-10},{1.73e-09,8.25e-08},{9.38e-08,7.95e-10},},{{5.94e-09,3.95e-11},{5.94e-09,5.78e-08},{5.91e-08,5.31e-10},},{{1.02e-08,3.06e-10},{1.02e-08,1.19e-07},{1.50e-07,1.20e-09},},},
{{{1.20e-11,5.67e-13},{1.20e-11,6.75e-10},{3.11e-09,6.54e-12},},{{1.02e-11,5.74e-13},{1.02e-11,6.79e-10},{3.13e-09,6.58e-12},},{{1.59e-11,5.51e-13},{1.59e-11,6.67e-10},{3.06e-09,6.46e-12},},{{4.19e-11,4.35e-13},{4.19e-11,6.11e-10},{2.74e-09,5.85e-12},},{{1.97e-11,6.95e-13},{1.97e-11,7.33e-10},{3.45e-09,7.16e-12},},},
},
{{{{1.28e-08,1.75e-05},{4.11e-05,4.98e-03},{1.58e-05,3.73e-05},},{{1.82e-08,1.88e-05},{5.13e-05,5.38e-03},{1.74e-05,3.90e-05},},{{1.36e-07,1.48e-05},{2.27e-05,4.13e-03},{1.27e-05,3.37e-05},},{{1.27e-06,3.77e-06},{6.20e-06,8.85e-04},{1.52e-06,1.48e-05},},{{2.25e-05,5.44e-05},{6.10e-04,1.73e-02},{6.43e-05,7.63e-05},},},
{{{2.22e-10,1.36e-07},{1.29e-06,1.55e-04},{4.96e-07,1.17e-06},},{{3.81e-10,1.39e-07},{1.36e-06,1.59e-04},{5.07e-07,1.18e-06},},{{4.39e-10,1.31e-07},{1.12e-06,1.48e-04},{4.69e-07,1.14e-06},},{{1.33e-08,9.49e-08},{2.76e-07,1.04e-04},{3.04e-07,9.34e-07},},{{1.23e-08,1.83e-07},{2.97e-06,2.15e-04},{7.24e-07,1.40e-06},},},
{{{5.57e-12,1.07e-09},{4.02e-08,4.86e-06},{1.55e-08,3.65e-08},},{{7.01e-12,1.07e-09},{4.07e-08,4.88e-06},{1.56e-08,3.66e-08},},{{1.62e-12,1.06e-09},{3.88e-08,4.80e-06},{1.53e-08,3.63e-08},},{{5.18e-11,9.75e-10},{2.97e-08,4.40e-06},{1.38e-08,3.45e-08},},{{7.67e-12,1.15e-09},{5.05e-08,5.27e-06},{1.71e-08,3.82e-08},},},
},
{{{{2.71e-05,1.11e-02},{1.51e-04,4.62e-05},{1.17e-04,1.85e-05},},{{3.43e-05,1.19e-02},{3.19e-04,6.65e-05},{1.77e-04,2.20e-05},},{{1.42e-05,9.36e-03},{4.84e-05,1.38e-05},{5.11e-05,1.19e-05},},{{3.66e-06,2.39e-03},{2.28e-04,1.79e-06},{3.79e-05,3.09e-06},},{{4.62e-04,3.45e-02},{3.06e-02,1.91e-03},{3.62e-03,1.56e-04},},},
{{{8.46e-07,3.46e-04},{1.89e-05,1.44e-06},{1.46e-05,5.80e-07},},{{8.99e-07,3.52e-04},{2.34e-05,1.59e-06},{1.64e-05,6.06e-07},},{{7.30e-07,3.32e-04},{9.86e-06,1.13e-06},{1.08e-05,5.23e-07},},{{1.51e-07,2.41e-04},{9.32e-06,1.47e-07},{7.58e-06,1.99e-07},},{{2.06e-06,4.64e-04},{1.73e-04,5.24e-06},{5.60e-05,1.11e-06},},},
{{{2.64e-08,1.08e-05},{2.36e-06,4.51e-08},{1.83e-06,1.81e-08},},{{2.68e-08,1.09e-05},{2.49e-06,4.62e-08},{1.89e-06,1.83e-08},},{{2.55e-08,1.07e-05},{2.05e-06,4.26e-08},{1.71e-06,1.77e-08},},{{1.91e-08,9.88e-06},{2.55e-07,2.59e-08},{9.65e-07,1.45e-08},},{{3.38e-08,1.16e-05},{5.11e-06,6.59e-08},{2.82e-06,2.16e-08},},},
},
{{{{1.03e-04,3.18e-05},{1.03e-04,3.18e-05},{8.50e-05,1.44e-05},},{{2.19e-04,4.63e-05},{2.19e-04,4.63e-05},{1.32e-04,1.72e-05},},{{3.16e-05,9.08e-06},{3.16e-05,9.08e-06},{2.83e-05,8.89e-06},},{{8.87e-05,3.59e-06},{8.87e-05,3.59e-06},{5.23e-05,2.79e-06},},{{2.26e-02,1.43e-03},{2.26e-02,1.43e-03},{3.00e-03,1.32e-04},},},
{{{1.29e-05,9.92e-07},{1.29e-05,9.92e-07},{1.07e-05,4.50e-07},},{{1.60e-05,1.10e-06},{1.60e-05,1.10e-06},{1.20e-05,4.71e-07},},{{6.74e-06,7.73e-07},{6.74e-06,7.73e-07},{7.69e-06,4.02e-07},},{{5.89e-06,1.04e-07},{5.89e-06,1.04e-07},{5.91e-06,1.36e-07},},{{1.21e-04,3.74e-06},{1.21e-04,3.74e-06},{4.35e-05,8.97e-07},},},
{{{1.61e-06,3.10e-08},{1.61e-06,3.10e-08},{1.33e-06,1.41e-08},},{{1.71e-06,3.18e-08},{1.71e-06,3.18e-08},{1.38e-06,1.42e-08},},{{1.40e-06,2.92e-08},{1.40e-06,2.92e-08},{1.24e-06,1.37e-08},},{{1.79e-07,1.75e-08},{1.79e-07,1.75e-08},{6.03e-07,1.10e-08},},{{3.52e-06,4.59e-08},{3.52e-06,4.59e-08},{2.11e-06,1.70e-08},},},
},
{{{{7.37e-05,2.28e-05},{7.37e-05,2.28e-05},{6.01e-05,1.06e-05},},{{1.57e-04,3.34e-05},{1.57e-04,3.34e-05},{9.53e-05,1.29e-05},},{{2.19e-05,6.31e-06},{2.19e-05,6.31e-06},{2.17e-05,6.04e-06},},{{2.87e-05,3.65e-06},{2.87e-05,3.65e-06},{4.50e-05,2.65e-06},},{{1.72e-02,1.10e-03},{1.72e-02,1.10e-03},{2.46e-03,1.12e-04},},},
{{{9.21e-06,7.11e-07},{9.21e-06,7.11e-07},{7.53e-06,3.30e-07},},{{1.15e-05,7.87e-07},{1.15e-05,7.87e-07},{8.54e-06,3.48e-07},},{{4.81e-06,5.51e-07},{4.81e-06,5.51e-07},{5.35e-06,2.91e-07},},{{4.02e-06,7.41e-08},{4.02e-06,7.41e-08},{3.72e-06,7.31e-08},},{{8.83e-05,2.76e-06},{8.83e-05,2.76e-06},{3.27e-05,7.07e-07},},},
{{{1.15e-06,2.22e-08},{1.15e-06,2.22e-08},{9.41e-07,1.03e-08},},{{1.22e-06,2.28e-08},{1.22e-06,2.28e-08},{9.72e-07,1.05e-08},},{{1.00e-06,2.09e-08},{1.00e-06,2.09e-08},{8.70e-07,1.00e-08},},{{1.30e-07,1.24e-08},{1.30e-07,1.24e-08},{4.45e-07,7.79e-09},},{{2.52e-06,3.32e-08},{2.52e-06,3.32e-08},{1.52e-06,1.28e-08},},},
},
{{{{5.45e-05,1.69e-05},{5.45e-05,1.69e-05},{4.28e-05,7.26e-06},},{{1.17e-04,2.49e-05},{1.17e-04,2.49e-05},{6.70e-05,8.91e-06},},{{1.59e-05,4.58e-06},{1.59e-05,4.58e-06},{1.44e-05,4.15e-06},},{{1.03e-05,2.81e-06},{1.03e-05,2.81e-06},{2.55e-05,1.56e-06},},{{1.33e-02,8.63e-04},{1.33e-02,8.63e-04},{1.73e-03,7.94e-05},},},
{{{6.81e-06,5.27e-07},{6.81e-06,5.27e-07},{5.34e-06,2.27e-07},},{{8.48e-06,5.84e-07},{8.48e-06,5.84e-07},{6.04e-06,2.39e-07},},{{3.55e-06,4.07e-07},{3.55e-06,4.07e-07},{3.85e-06,2.00e-07},},{{2.88e-06,5.42e-08},{2.88e-06,5.42e-08},{2.37e-06,5.08e-08},},{{6.62e-05,2.09e-06},{6.62e-05,2.09e-06},{2.27e-05,4.88e-07},},},
{{{8.51e-07,1.65e-08},{8.51e-07,1.65e-08},{6.68e-07,7.08e-09},},{{9.01e-07,1.69e-08},{9.01e-07,1.69e-08},{6.89e-07,7.18e-09},},{{7.40e-07,1.55e-08},{7.40e-07,1.55e-08},{6.19e-07,6.86e-09},},{{9.76e-08,9.07e-09},{9.76e-08,9.07e-09},{3.13e-07,5.34e-09},},{{1.87e-06,2.47e-08},{1.87e-06,2.47e-08},{1.06e-06,8.76e-09},},},
},
{{{{4.14e-05,1.28e-05},{4.14e-05,1.28e-05},{3.41e-05,5.95e-06},},{{8.89e-05,1.91e-05},{8.89e-05,1.91e-05},{5.39e-05,7.34e-06},},{{1.19e-05,3.43e-06},{1.19e-05,3.43e-06},{1.16e-05,3.33e-06},},{{5.15e-06,2.00e-06},{5.15e-06,2.00e-06},{2.50e-05,1.32e-06},},{{1.05e-02,6.88e-04},{1.05e-02,6.88e-04},{1.45e-03,6.74e-05},},},
{{{5.18e-06,4.01e-07},{5.18e-06,4.01e-07},{4.25e-06,1.86e-07},},{{6.44e-06,4.45e-07},{6.44e-06,4.45e-07},{4.82e-06,1.96e-07},},{{2.70e-06,3.09e-07},{2.70e-06,3.09e-07},{3.03e-06,1.63e-07},},{{2.14e-06,4.09e-08},{2.14e-06,4.09e-08},{1.96e-06,3.83e-08},},{{5.09e-05,1.62e-06},{5.09e-05,1.62e-06},{1.86e-05,4.07e-07},},},
{{{6.47e-07,1.25e-08},{6.47e-07,1.25e-08},{5.31e-07,5.80e-09},},{{6.85e-07,1.29e-08},{6.85e-07,1.29e-08},{5.48e-07,5.88e-09},},{{5.62e-07,1.18e-08},{5.62e-07,1.18e-08},{4.91e-07,5.62e-09},},{{7.49e-08,6.86e-09},{7.49e-08,6.86e-09},{2.44e-07,4.33e-09},},{{1.43e-06,1.89e-08},{1.43e-06,1.89e-08},{8.55e-07,7.21e-09},},},
},
{{{{3.22e-05,9.99e-06},{3.22e-05,1.70e-02},{2.62e-05,1.27e-04},},{{6.92e-05,1.49e-05},{6.92e-05,1.84e-02},{4.20e-05,1.33e-04},},{{9.14e-06,2.64e-06},{9.14e-06,1.41e-02},{8.37e-06,1.15e-04},},{{3.40e-06,1.44e-06},{3.40e-06,3.02e-03},{1.69e-05,5.03e-05},},{{8.42e-03,5.56e-04},{8.42e-03,5.89e-02},{1.23e-03,2.61e-04},},},
{{{4.03e-06,3.12e-07},{4.03e-06,5.31e-04},{3.28e-06,3.99e-06},},{{5.01e-06,3.47e-07},{5.01e-06,5.41e-04},{3.73e-06,4.03e-06},},{{2.10e-06,2.40e-07},{2.10e-06,5.07e-04},{2.32e-06,3.89e-06},},{{1.64e-06,3.15e-08},{1.64e-06,3.55e-04},{1.47e-06,3.19e-06},},{{3.99e-05,1.27e-06},{3.99e-05,7.34e-04},{1.48e-05,4.79e-06},},},
{{{5.03e-07,9.76e-09},{5.03e-07,1.66e-05},{4.10e-07,1.25e-07},},{{5.33e-07,1.00e-08},{5.33e-07,1.67e-05},{4.23e-07,1.25e-07},},{{4.37e-07,9.16e-09},{4.37e-07,1.64e-05},{3.78e-07,1.24e-07},},{{5.86e-08,5.32e-09},{5.86e-08,1.50e-05},{1.84e-07,1.18e-07},},{{1.11e-06,1.48e-08},{1.11e-06,1.80e-05},{6.67e-07,1.31e-07},},},
},
{{{{2.55e-05,7.94e-06},{2.55e-05,4.24e-01},{2.01e-05,3.19e-03},},{{5.50e-05,1.19e-05},{5.50e-05,4.59e-01},{3.19e-05,3.34e-03},},{{7.18e-06,2.08e-06},{7.18e-06,3.52e-01},{6.90e-06,2.88e-03},},{{2.52e-06,1.07e-06},{2.52e-06,7.55e-02},{1.12e-05,1.26e-03},},{{6.85e-03,4.55e-04},{6.85e-03,1.47e+00},{9.24e-04,6.53e-03},},},
{{{3.19e-06,2.48e-07},{3.19e-06,2.65e-02},{2.52e-06,1.99e-04},},{{3.98e-06,2.76e-07},{3.98e-06,2.71e-02},{2.85e-06,2.02e-04},},{{1.67e-06,1.90e-07},{1.67e-06,2.53e-02},{1.80e-06,1.94e-04},},{{1.29e-06,2.49e-08},{1.29e-06,1.77e-02},{1.06e-06,1.59e-04},},{{3.19e-05,1.02e-06},{3.19e-05,3.67e-02},{1.12e-05,2.40e-04},},},
{{{3.99e-07,7.75e-09},{3.99e-07,1.66e-03},{3.15e-07,1.25e-05},},{{4.23e-07,7.96e-09},{4.23e-07,1.67e-03},{3.25e-07,1.25e-05},},{{3.47e-07,7.27e-09},{3.47e-07,1.64e-03},{2.91e-07,1.24e-05},},{{4.67e-08,4.20e-09},{4.67e-08,1.50e-03},{1.48e-07,1.18e-05},},{{8.82e-07,1.18e-08},{8.82e-07,1.80e-03},{5.07e-07,1.31e-05},},},
},
{{{{2.06e-05,4.02e-02},{2.06e-05,6.40e-06},{6.50e-03,1.86e-03},},{{4.44e-05,4.32e-02},{4.44e-05,9.59e-06},{1.29e-02,2.43e-03},},{{5.75e-06,3.40e-02},{5.75e-06,1.67e-06},{5.29e-03,8.60e-04},},{{1.95e-06,8.67e-03},{8.53e-05,7.47e-06},{6.83e-03,1.42e-04},},{{5.64e-03,1.25e-01},{5.50e-03,3.55e-04},{6.40e-01,3.33e-02},},},
{{{2.57e-06,1.26e-03},{2.57e-06,2.00e-07},{3.24e-03,2.33e-04},},{{3.21e-06,1.28e-03},{3.21e-06,2.23e-07},{3.97e-03,2.49e-04},},{{1.34e-06,1.21e-03},{1.34e-06,1.53e-07},{3.09e-03,1.97e-04},},{{1.03e-06,8.74e-04},{1.02e-06,2.06e-08},{3.27e-03,1.94e-05},},{{2.58e-05,1.69e-03},{2.58e-05,8.31e-07},{2.34e-02,6.12e-04},},},
{{{3.22e-07,3.93e-05},{3.22e-07,6.25e-09},{1.62e-03,2.91e-05},},{{3.41e-07,3.94e-05},{3.41e-07,6.43e-09},{1.71e-03,2.96e-05},},{{2.79e-07,3.89e-05},{2.79e-07,5.87e-09},{1.60e-03,2.79e-05},},{{3.79e-08,3.59e-05},{3.79e-08,3.38e-09},{1.46e-03,1.99e-05},},{{7.12e-07,4.23e-05},{7.12e-07,9.52e-09},{3.30e-03,3.83e-05},},},
},
{{{{1.69e-05,1.17e+00},{1.69e-05,5.24e-06},{6.54e-03,8.04e-04},},{{3.63e-05,1.25e+00},{3.63e-05,7.87e-06},{9.09e-03,8.99e-04},},{{4.68e-06,9.86e-01},{4.68e-06,1.36e-06},{2.43e-03,6.05e-04},},{{1.55e-06,2.51e-01},{4.21e-06,6.44e-07},{5.75e-03,1.44e-04},},{{4.69e-03,3.63e+00},{4.69e-03,3.15e-04},{2.48e-01,1.37e-02},},},
{{{2.11e-06,7.29e-02},{2.11e-06,1.64e-07},{3.27e-03,1.01e-04},},{{2.63e-06,7.42e-02},{2.63e-06,1.82e-07},{3.58e-03,1.03e-04},},{{1.10e-06,6.99e-02},{1.10e-06,1.25e-07},{2.59e-03,9.39e-05},},{{8.34e-07,5.07e-02},{8.34e-07,1.63e-08},{1.21e-03,5.17e-05},},{{2.12e-05,9.78e-02},{2.12e-05,6.85e-07},{9.61e-03,2.10e-04},},},
{{{2.63e-07,4.56e-03},{2.63e-07,5.12e-09},{1.64e-03,1.26e-05},},{{2.79e-07,4.58e-03},{2.79e-07,5.26e-09},{1.67e-03,1.27e-05},},{{2.29e-07,4.51e-03},{2.29e-07,4.80e-09},{1.55e-03,1.24e-05},},{{3.11e-08,4.16e-03},{3.11e-08,2.76e-09},{9.35e-04,1.08e-05},},{{5.83e-07,4.91e-03},{5.83e-07,7.81e-09},{2.30e-03,1.41e-05},},},
},
{{{{1.11e-10,3.60e-10},{4.59e-09,1.16e-08},{4.66e-10,1.02e-10},},{{1.09e-10,3.86e-10},{4.87e-09,1.25e-08},{4.93e-10,1.07e-10},},{{1.13e-10,3.04e-10},{4.00e-09,9.62e-09},{4.08e-10,9.15e-11},},{{6.52e-11,7.63e-11},{1.21e-09,2.07e-09},{2.02e-10,3.81e-11},},{{2.78e-10,1.13e-09},{1.09e-08,4.00e-08},{1.14e-09,2.17e-10},},},
{{{2.50e-13,1.75e-13},{8.95e-12,2.30e-11},{8.95e-13,1.80e-13},},{{2.50e-13,1.79e-13},{9.09e-12,2.35e-11},{9.08e-13,1.82e-13},},{{2.50e-13,1.68e-13},{8.65e-12,2.20e-11},{8.66e-13,1.76e-13},},{{2.40e-13,1.22e-13},{6.62e-12,1.54e-11},{6.71e-13,1.44e-13},},{{2.28e-13,2.36e-13},{1.13e-11,3.18e-11},{1.13e-12,2.17e-13},},},
{{{5.04e-16,8.57e-17},{1.75e-14,4.51e-14},{1.74e-15,3.43e-16},},{{5.05e-16,8.60e-17},{1.75e-14,4.53e-14},{1.75e-15,3.44e-16},},{{5.05e-16,8.48e-17},{1.73e-14,4.46e-14},{1.73e-15,3.41e-16},},{{5.05e-16,7.83e-17},{1.62e-14,4.09e-14},{1.62e-15,3.24e-16},},{{5.03e-16,9.23e-17},{1.86e-14,4.90e-14},{1.85e-15,3.59e-16},},},
},
{{{{3.04e-07,4.48e-08},{8.48e-07,3.04e-07},{1.20e-07,2.52e-09},},{{3.48e-07,4.75e-08},{9.37e-07,3.29e-07},{1.30e-07,2.64e-09},},{{2.18e-07,3.90e-08},{6.69e-07,2.52e-07},{9.87e-08,2.27e-09},},{{1.06e-09,1.19e-08},{7.94e-08,5.41e-08},{1.58e-08,9.86e-10},},{{2.17e-06,1.07e-07},{3.98e-06,1.05e-06},{4.08e-07,7.41e-09},},},
{{{2.37e-09,8.75e-11},{6.62e-09,1.18e-09},{9.36e-10,9.09e-12},},{{2.45e-09,8.88e-11},{6.79e-09,1.20e-09},{9.55e-10,9.20e-12},},{{2.19e-09,8.45e-11},{6.24e-09,1.13e-09},{8.92e-10,8.86e-12},},{{1.14e-09,6.47e-11},{3.95e-09,7.89e-10},{6.13e-10,7.26e-12},},{{4.10e-09,1.11e-10},{9.97e-09,1.63e-09},{1.30e-09,1.09e-11},},},
{{{1.85e-11,1.71e-13},{5.17e-11,4.60e-12},{7.31e-12,3.48e-14},},{{1.87e-11,1.71e-13},{5.21e-11,4.62e-12},{7.35e-12,3.49e-14},},{{1.82e-11,1.69e-13},{5.10e-11,4.55e-12},{7.23e-12,3.46e-14},},{{1.56e-11,1.59e-13},{4.56e-11,4.16e-12},{6.60e-12,3.29e-14},},{{2.13e-11,1.81e-13},{5.74e-11,4.99e-12},{7.95e-12,3.64e-14},},},
},
{{{{3.05e-07,5.67e-08},{1.42e-07,3.05e-07},{1.07e-08,2.26e-09},},{{3.50e-07,6.03e-08},{1.78e-07,3.30e-07},{1.14e-08,2.36e-09},},{{2.20e-07,4.91e-08},{1.00e-07,2.53e-07},{1.23e-08,2.04e-09},},{{3.67e-09,1.45e-08},{3.66e-08,5.41e-08},{1.59e-08,8.95e-10},},{{2.18e-06,1.44e-07},{2.04e-06,1.06e-06},{5.47e-08,5.22e-09},},},
{{{2.38e-09,1.11e-10},{1.10e-09,1.18e-09},{7.36e-11,8.84e-12},},{{2.46e-09,1.13e-10},{1.17e-09,1.20e-09},{7.07e-11,8.94e-12},},{{2.19e-09,1.07e-10},{9.54e-10,1.13e-09},{8.01e-11,8.61e-12},},{{1.14e-09,8.09e-11},{2.98e-10,7.89e-10},{1.15e-10,7.06e-12},},{{4.10e-09,1.42e-10},{2.57e-09,1.63e-09},{5.30e-11,1.06e-11},},},
{{{1.85e-11,2.16e-13},{8.57e-12,4.60e-12},{5.77e-13,3.45e-14},},{{1.87e-11,2.17e-13},{8.70e-12,4.62e-12},{5.71e-13,3.46e-14},},{{1.82e-11,2.15e-13},{8.28e-12,4.55e-12},{5.90e-13,3.43e-14},},{{1.56e-11,2.00e-13},{6.25e-12,4.17e-12},{6.80e-13,3.27e-14},},{{2.13e-11,2.31e-13},{1.09e-11,4.99e-12},{4.77e-13,3.62e-14},},},
},
{{{{3.06e-07,1.14e-07},{6.92e-07,3.28e-07},{1.38e-07,8.92e-09},},{{3.50e-07,1.22e-07},{7.72e-07,3.56e-07},{1.52e-07,9.46e-09},},{{2.20e-07,9.76e-08},{5.32e-07,2.72e-07},{1.10e-07,7.78e-09},},{{3.78e-09,2.69e-08},{4.66e-08,5.68e-08},{9.07e-09,2.58e-09},},{{2.18e-06,3.23e-07},{3.83e-06,1.17e-06},{5.47e-07,2.26e-08},},},
{{{2.38e-09,2.25e-10},{5.36e-09,1.16e-09},{1.07e-09,1.74e-11},},{{2.46e-09,2.29e-10},{5.51e-09,1.19e-09},{1.10e-09,1.77e-11},},{{2.19e-09,2.16e-10},{5.02e-09,1.11e-09},{1.01e-09,1.68e-11},},{{1.14e-09,1.60e-10},{3.01e-09,7.79e-10},{6.41e-10,1.30e-11},},{{4.10e-09,2.95e-10},{8.45e-09,1.61e-09},{1.57e-09,2.21e-11},},},
{{{1.85e-11,4.40e-13},{4.18e-11,4.58e-12},{8.33e-12,3.52e-14},},{{1.87e-11,4.42e-13},{4.21e-11,4.61e-12},{8.38e-12,3.53e-14},},{{1.82e-11,4.36e-13},{4.11e-11,4.53e-12},{8.22e-12,3.50e-14},},{{1.56e-11,4.05e-13},{3.63e-11,4.15e-12},{7.38e-12,3.33e-14},},{{2.13e-11,4.71e-13},{4.69e-11,4.98e-12},{9.20e-12,3.69e-14},},},
},
{{{{4.60e-07,7.74e-06},{4.67e-07,1.38e-06},{3.45e-06,1.69e-07},},{{5.12e-07,8.31e-06},{1.83e-06,1.50e-06},{3.99e-06,1.87e-07},},{{3.56e-07,6.54e-06},{4.05e-06,1.15e-06},{2.40e-06,1.33e-07},},{{3.71e-08,1.67e-06},{1.83e-06,2.47e-07},{7.44e-07,1.09e-08},},{{2.41e-06,2.41e-05},{1.96e-04,1.01e-05},{2.29e-05,7.10e-07},},},
{{{3.58e-09,6.12e-08},{1.38e-08,5.42e-09},{1.08e-07,1.32e-09},},{{3.68e-09,6.23e-08},{3.68e-09,5.68e-09},{1.12e-07,1.35e-09},},{{3.36e-09,5.87e-08},{4.88e-08,5.18e-09},{9.91e-08,1.25e-09},},{{2.05e-09,4.26e-08},{1.86e-07,3.62e-09},{4.61e-08,7.80e-10},},{{5.56e-09,8.22e-08},{4.17e-07,1.26e-08},{1.89e-07,1.96e-09},},},
{{{2.80e-11,4.80e-10},{4.27e-10,4.19e-11},{3.38e-09,1.03e-11},},{{2.82e-11,4.82e-10},{3.00e-10,4.25e-11},{3.41e-09,1.04e-11},},{{2.75e-11,4.75e-10},{7.15e-10,4.05e-11},{3.31e-09,1.02e-11},},{{2.44e-11,4.39e-10},{2.59e-09,3.06e-11},{2.80e-09,9.10e-12},},{{3.13e-11,5.17e-10},{1.94e-09,5.31e-11},{3.92e-09,1.14e-11},},},
},
{{{{4.57e-07,7.84e-06},{1.07e-06,1.88e-05},{3.51e-06,3.07e-07},},{{5.08e-07,8.42e-06},{1.12e-06,2.05e-05},{4.04e-06,3.31e-07},},{{3.54e-07,6.62e-06},{4.47e-06,1.54e-05},{2.44e-06,2.58e-07},},{{8.78e-08,1.68e-06},{1.80e-06,3.11e-06},{7.45e-07,6.16e-08},},{{3.31e-06,2.45e-05},{1.90e-04,7.29e-05},{2.31e-05,9.94e-07},},},
{{{3.58e-09,6.14e-08},{1.86e-08,1.47e-07},{1.08e-07,2.39e-09},},{{3.67e-09,6.25e-08},{3.16e-09,1.50e-07},{1.12e-07,2.44e-09},},{{3.36e-09,5.89e-08},{5.32e-08,1.40e-07},{9.95e-08,2.29e-09},},{{2.05e-09,4.27e-08},{1.88e-07,9.59e-08},{4.63e-08,1.63e-09},},{{5.55e-09,8.24e-08},{4.08e-07,2.09e-07},{1.90e-07,3.25e-09},},},
{{{2.80e-11,4.80e-10},{4.64e-10,1.15e-09},{3.38e-09,1.87e-11},},{{2.82e-11,4.82e-10},{3.38e-10,1.16e-09},{3.41e-09,1.88e-11},},{{2.75e-11,4.75e-10},{7.52e-10,1.14e-09},{3.31e-09,1.85e-11},},{{2.44e-11,4.39e-10},{2.62e-09,1.03e-09},{2.80e-09,1.70e-11},},{{3.13e-11,5.17e-10},{1.90e-09,1.26e-09},{3.92e-09,2.02e-11},},},
},
{{{{5.36e-07,7.90e-06},{5.01e-06,1.71e-05},{3.43e-06,3.11e-07},},{{6.13e-07,8.48e-06},{5.64e-06,1.86e-05},{3.96e-06,3.15e-07},},{{3.88e-07,6.67e-06},{4.45e-06,1.40e-05},{2.38e-06,2.99e-07},},{{3.75e-08,1.70e-06},{1.91e-06,2.80e-06},{7.41e-07,1.82e-07},},{{3.92e-06,2.46e-05},{1.93e-04,6.70e-05},{2.28e-05,2.73e-07},},},
{{{4.19e-09,6.15e-08},{7.82e-08,1.34e-07},{1.08e-07,2.42e-09},},{{4.34e-09,6.26e-08},{8.06e-08,1.36e-07},{1.12e-07,2.43e-09},},{{3.87e-09,5.90e-08},{7.30e-08,1.27e-07},{9.89e-08,2.40e-09},},{{2.05e-09,4.28e-08},{1.89e-07,8.67e-08},{4.59e-08,2.21e-09},},{{7.22e-09,8.26e-08},{4.11e-07,1.90e-07},{1.89e-07,2.54e-09},},},
{{{3.27e-11,4.80e-10},{1.22e-09,1.04e-09},{3.38e-09,1.89e-11},},{{3.30e-11,4.83e-10},{1.23e-09,1.05e-09},{3.41e-09,1.90e-11},},{{3.21e-11,4.76e-10},{1.20e-09,1.03e-09},{3.30e-09,1.89e-11},},{{2.76e-11,4.39e-10},{2.62e-09,9.38e-10},{2.79e-09,1.86e-11},},{{3.77e-11,5.17e-10},{1.91e-09,1.14e-09},{3.92e-09,1.92e-11},},},
},
{{{{5.56e-07,2.01e-06},{5.73e-06,1.11e-05},{3.16e-06,9.49e-07},},{{6.31e-07,2.16e-06},{6.57e-06,1.20e-05},{3.50e-06,9.87e-07},},{{4.13e-07,1.69e-06},{4.11e-06,9.19e-06},{2.49e-06,8.64e-07},},{{2.43e-07,4.17e-07},{1.33e-07,1.97e-06},{3.21e-07,4.02e-07},},{{8.60e-06,6.55e-06},{4.28e-05,3.84e-05},{1.46e-05,1.75e-06},},},
{{{4.34e-09,7.83e-09},{8.94e-08,8.64e-08},{9.94e-08,7.40e-09},},{{4.48e-09,7.98e-09},{9.26e-08,8.82e-08},{1.02e-07,7.47e-09},},{{4.03e-09,7.50e-09},{8.24e-08,8.25e-08},{9.37e-08,7.23e-09},},{{5.96e-09,5.39e-09},{4.28e-08,5.78e-08},{5.90e-08,6.05e-09},},{{1.02e-08,1.06e-08},{1.56e-07,1.19e-07},{1.50e-07,8.70e-09},},},
{{{3.39e-11,3.06e-11},{1.40e-09,6.75e-10},{3.11e-09,5.78e-11},},{{3.42e-11,3.07e-11},{1.41e-09,6.79e-10},{3.13e-09,5.79e-11},},{{3.33e-11,3.03e-11},{1.37e-09,6.67e-10},{3.06e-09,5.75e-11},},{{4.20e-11,2.79e-11},{1.17e-09,6.11e-10},{2.74e-09,5.50e-11},},{{3.87e-11,3.30e-11},{1.61e-09,7.33e-10},{3.45e-09,6.02e-11},},},
},
{{{{2.06e-07,2.99e-05},{1.63e-05,1.10e-05},{1.15e-05,8.57e-08},},{{2.50e-07,3.22e-05},{2.24e-05,1.20e-05},{1.17e-05,8.96e-08},},{{2.73e-07,2.53e-05},{5.28e-06,9.18e-06},{1.10e-05,8.86e-08},},{{2.44e-07,6.45e-06},{9.22e-06,1.97e-06},{4.99e-06,1.04e-07},},{{8.51e-06,9.33e-05},{3.40e-04,3.83e-05},{7.01e-06,5.07e-07},},},
{{{1.61e-09,2.34e-07},{5.10e-07,8.64e-08},{3.62e-07,6.55e-10},},{{1.69e-09,2.38e-07},{5.55e-07,8.81e-08},{3.64e-07,6.62e-10},},{{1.82e-09,2.24e-07},{4.11e-07,8.25e-08},{3.58e-07,6.38e-10},},{{5.99e-09,1.63e-07},{9.50e-08,5.78e-08},{3.20e-07,8.44e-10},},{{1.00e-08,3.14e-07},{1.52e-06,1.19e-07},{3.77e-07,7.87e-10},},},
{{{1.26e-11,1.83e-09},{1.59e-08,6.75e-10},{1.13e-08,5.09e-12},},{{1.27e-11,1.84e-09},{1.63e-08,6.79e-10},{1.14e-08,5.10e-12},},{{1.62e-11,1.81e-09},{1.51e-08,6.67e-10},{1.13e-08,5.05e-12},},{{4.22e-11,1.67e-09},{9.65e-09,6.11e-10},{1.11e-08,4.96e-12},},{{1.92e-11,1.97e-09},{2.22e-08,7.33e-10},{1.15e-08,5.33e-12},},},
},
{{{{3.20e-06,5.79e-05},{6.08e-06,1.73e-05},{5.79e-06,1.33e-06},},{{3.76e-06,6.21e-05},{8.52e-06,1.88e-05},{6.44e-06,1.40e-06},},{{3.12e-06,4.91e-05},{3.72e-06,1.42e-05},{4.45e-06,1.19e-06},},{{1.08e-06,1.27e-05},{2.72e-06,2.80e-06},{1.33e-06,4.73e-07},},{{1.24e-04,1.75e-04},{1.52e-04,6.31e-05},{2.62e-05,2.98e-06},},},
{{{4.99e-08,4.52e-07},{1.88e-07,1.35e-07},{1.81e-07,1.04e-08},},{{5.19e-08,4.60e-07},{2.08e-07,1.38e-07},{1.86e-07,1.05e-08},},{{4.53e-08,4.34e-07},{1.43e-07,1.29e-07},{1.69e-07,1.01e-08},},{{1.33e-07,3.17e-07},{7.82e-08,8.83e-08},{9.96e-08,8.10e-09},},{{2.72e-07,6.03e-07},{6.57e-07,1.90e-07},{2.77e-07,1.28e-08},},},
{{{7.78e-10,3.53e-09},{5.93e-09,1.06e-09},{5.64e-09,8.14e-11},},{{7.86e-10,3.55e-09},{6.09e-09,1.06e-09},{5.68e-09,8.16e-11},},{{7.60e-10,3.50e-09},{5.56e-09,1.04e-09},{5.55e-09,8.08e-11},},{{1.92e-09,3.24e-09},{3.07e-09,9.50e-10},{4.91e-09,7.64e-11},},{{1.16e-09,3.80e-09},{8.81e-09,1.15e-09},{6.31e-09,8.57e-11},},},
},
{{{{3.85e-06,1.75e-05},{4.11e-05,4.98e-03},{1.57e-05,3.78e-05},},{{4.44e-06,1.88e-05},{5.13e-05,5.38e-03},{1.73e-05,3.95e-05},},{{2.72e-06,1.48e-05},{2.27e-05,4.13e-03},{1.26e-05,3.40e-05},},{{1.22e-06,3.77e-06},{6.20e-06,8.85e-04},{1.51e-06,1.48e-05},},{{2.99e-05,5.44e-05},{6.10e-04,1.73e-02},{6.40e-05,7.82e-05},},},
{{{5.98e-08,1.36e-07},{1.29e-06,1.55e-04},{4.95e-07,1.17e-06},},{{6.20e-08,1.39e-07},{1.36e-06,1.59e-04},{5.07e-07,1.19e-06},},{{5.50e-08,1.31e-07},{1.12e-06,1.48e-04},{4.68e-07,1.14e-06},},{{2.76e-08,9.49e-08},{2.76e-07,1.04e-04},{3.03e-07,9.36e-07},},{{1.06e-07,1.83e-07},{2.97e-06,2.15e-04},{7.23e-07,1.41e-06},},},
{{{9.34e-10,1.07e-09},{4.02e-08,4.86e-06},{1.55e-08,3.66e-08},},{{9.42e-10,1.07e-09},{4.07e-08,4.88e-06},{1.56e-08,3.67e-08},},{{9.14e-10,1.06e-09},{3.88e-08,4.80e-06},{1.53e-08,3.63e-08},},{{7.77e-10,9.75e-10},{2.97e-08,4.40e-06},{1.38e-08,3.46e-08},},{{1.08e-09,1.15e-09},{5.05e-08,5.27e-06},{1.71e-08,3.83e-08},},},
},
{{{{2.71e-05,1.11e-02},{1.51e-04,4.62e-05},{1.11e-04,1.83e-05},},{{3.43e-05,1.19e-02},{3.19e-04,6.65e-05},{1.71e-04,2.17e-05},},{{1.42e-05,9.36e-03},{4.80e-05,1.38e-05},{4.93e-05,1.17e-05},},{{3.66e-06,2.39e-03},{2.28e-04,1.79e-06},{3.79e-05,3.10e-06},},{{4.62e-04,3.45e-02},{3.06e-02,1.91e-03},{3.58e-03,1.54e-04},},},
{{{8.46e-07,3.46e-04},{1.89e-05,1.44e-06},{1.45e-05,5.78e-07},},{{8.99e-07,3.52e-04},{2.34e-05,1.59e-06},{1.62e-05,6.04e-07},},{{7.30e-07,3.32e-04},{9.86e-06,1.13e-06},{1.06e-05,5.21e-07},},{{1.51e-07,2.41e-04},{9.32e-06,1.47e-07},{7.66e-06,1.98e-07},},{{2.06e-06,4.64e-04},{1.73e-04,5.24e-06},{5.57e-05,1.11e-06},},},
{{{2.64e-08,1.08e-05},{2.36e-06,4.51e-08},{1.83e-06,1.81e-08},},{{2.68e-08,1.09e-05},{2.49e-06,4.62e-08},{1.88e-06,1.83e-08},},{{2.55e-08,1.07e-05},{2.05e-06,4.26e-08},{1.70e-06,1.77e-08},},{{1.91e-08,9.88e-06},{2.55e-07,2.59e-08},{9.63e-07,1.44e-08},},{{3.38e-08,1.16e-05},{5.11e-06,6.59e-08},{2.82e-06,2.16e-08},},},
},
{{{{1.04e-05,1.74e-05},{4.15e-05,4.95e-03},{1.59e-05,3.72e-05},},{{1.44e-05,1.87e-05},{5.17e-05,5.36e-03},{1.74e-05,3.89e-05},},{{3.21e-06,1.47e-05},{2.30e-05,4.11e-03},{1.27e-05,3.35e-05},},{{4.35e-06,3.75e-06},{6.20e-06,8.81e-04},{1.51e-06,1.47e-05},},{{2.73e-04,5.42e-05},{6.13e-04,1.72e-02},{6.44e-05,7.64e-05},},},
{{{3.05e-07,1.36e-07},{1.29e-06,1.55e-04},{4.96e-07,1.17e-06},},{{3.35e-07,1.39e-07},{1.36e-06,1.58e-04},{5.07e-07,1.18e-06},},{{2.41e-07,1.31e-07},{1.12e-06,1.48e-04},{4.69e-07,1.14e-06},},{{6.75e-08,9.48e-08},{2.77e-07,1.04e-04},{3.04e-07,9.33e-07},},{{1.00e-06,1.83e-07},{2.98e-06,2.15e-04},{7.24e-07,1.40e-06},},},
{{{9.41e-09,1.07e-09},{4.02e-08,4.86e-06},{1.55e-08,3.65e-08},},{{9.63e-09,1.07e-09},{4.08e-08,4.88e-06},{1.56e-08,3.66e-08},},{{8.89e-09,1.05e-09},{3.89e-08,4.80e-06},{1.53e-08,3.63e-08},},{{5.37e-09,9.75e-10},{2.97e-08,4.40e-06},{1.38e-08,3.45e-08},},{{1.35e-08,1.15e-09},{5.06e-08,5.27e-06},{1.71e-08,3.82e-08},},},
},
{{{{1.03e-04,3.17e-05},{1.03e-04,9.73e-05},{8.03e-05,1.46e-05},},{{2.19e-04,4.63e-05},{2.19e-04,1.17e-04},{1.27e-04,1.74e-05},},{{3.18e-05,9.07e-06},{3.18e-05,6.35e-05},{2.66e-05,9.13e-06},},{{8.87e-05,3.59e-06},{8.87e-05,1.53e-05},{5.26e-05,2.60e-06},},{{2.26e-02,1.43e-03},{2.26e-02,1.66e-03},{2.96e-03,1.32e-04},},},
{{{1.29e-05,9.92e-07},{1.29e-05,1.50e-06},{1.05e-05,4.51e-07},},{{1.60e-05,1.10e-06},{1.60e-05,1.62e-06},{1.19e-05,4.73e-07},},{{6.74e-06,7.73e-07},{6.74e-06,1.26e-06},{7.56e-06,4.04e-07},},{{5.89e-06,1.04e-07},{5.89e-06,2.38e-07},{5.96e-06,1.38e-07},},{{1.21e-04,3.74e-06},{1.21e-04,4.45e-06},{4.32e-05,8.98e-07},},},
{{{1.61e-06,3.10e-08},{1.61e-06,3.50e-08},{1.33e-06,1.41e-08},},{{1.71e-06,3.18e-08},{1.71e-06,3.58e-08},{1.37e-06,1.42e-08},},{{1.40e-06,2.92e-08},{1.40e-06,3.32e-08},{1.23e-06,1.37e-08},},{{1.79e-07,1.75e-08},{1.79e-07,2.11e-08},{6.01e-07,1.10e-08},},{{3.52e-06,4.59e-08},{3.52e-06,5.02e-08},{2.10e-06,1.70e-08},},},
},
{{{{2.68e-05,1.11e-02},{1.57e-04,4.70e-05},{1.17e-04,1.75e-05},},{{3.40e-05,1.19e-02},{3.28e-04,6.75e-05},{1.77e-04,2.08e-05},},{{1.41e-05,9.36e-03},{4.69e-05,1.43e-05},{5.18e-05,1.10e-05},},{{3.69e-06,2.39e-03},{2.27e-04,1.69e-06},{3.78e-05,3.48e-06},},{{4.61e-04,3.45e-02},{3.07e-02,1.92e-03},{3.61e-03,1.53e-04},},},
{{{8.44e-07,3.46e-04},{1.90e-05,1.45e-06},{1.46e-05,5.72e-07},},{{8.97e-07,3.52e-04},{2.36e-05,1.60e-06},{1.64e-05,5.97e-07},},{{7.29e-07,3.32e-04},{1.00e-05,1.14e-06},{1.08e-05,5.15e-07},},{{1.50e-07,2.41e-04},{9.37e-06,1.45e-07},{7.57e-06,1.93e-07},},{{2.06e-06,4.64e-04},{1.73e-04,5.25e-06},{5.59e-05,1.10e-06},},},
{{{2.64e-08,1.08e-05},{2.36e-06,4.52e-08},{1.83e-06,1.81e-08},},{{2.68e-08,1.09e-05},{2.50e-06,4.63e-08},{1.89e-06,1.83e-08},},{{2.55e-08,1.07e-05},{2.06e-06,4.26e-08},{1.71e-06,1.76e-08},},{{1.91e-08,9.88e-06},{2.58e-07,2.60e-08},{9.65e-07,1.44e-08},},{{3.38e-08,1.16e-05},{5.12e-06,6.60e-08},{2.82e-06,2.15e-08},},},
},
{{{{2.71e-05,1.11e-02},{1.51e-04,4.93e-03},{1.17e-04,4.37e-04},},{{3.43e-05,1.19e-02},{3.19e-04,5.32e-03},{1.78e-04,4.60e-04},},{{1.43e-05,9.36e-03},{4.81e-05,4.12e-03},{5.09e-05,3.89e-04},},{{3.62e-06,2.39e-03},{2.30e-04,8.83e-04},{3.86e-05,1.62e-04},},{{4.62e-04,3.45e-02},{3.06e-02,1.53e-02},{3.62e-03,1.01e-03},},},
{{{8.46e-07,3.46e-04},{1.89e-05,1.54e-04},{1.47e-05,1.37e-05},},{{8.99e-07,3.52e-04},{2.34e-05,1.57e-04},{1.64e-05,1.38e-05},},{{7.30e-07,3.32e-04},{9.86e-06,1.47e-04},{1.08e-05,1.33e-05},},{{1.51e-07,2.41e-04},{9.30e-06,1.04e-04},{7.58e-06,1.07e-05},},{{2.06e-06,4.64e-04},{1.73e-04,2.10e-04},{5.60e-05,1.68e-05},},},
{{{2.64e-08,1.08e-05},{2.36e-06,4.81e-06},{1.83e-06,4.27e-07},},{{2.68e-08,1.09e-05},{2.49e-06,4.84e-06},{1.89e-06,4.28e-07},},{{2.55e-08,1.07e-05},{2.05e-06,4.76e-06},{1.71e-06,4.24e-07},},{{1.91e-08,9.88e-06},{2.85e-07,4.37e-06},{9.65e-07,4.01e-07},},{{3.38e-08,1.16e-05},{5.11e-06,5.21e-06},{2.82e-06,4.50e-07},},},
},
{{{{1.03e-04,1.11e-02},{2.54e-04,7.79e-05},{1.64e-04,2.49e-05},},{{2.19e-04,1.19e-02},{5.38e-04,1.13e-04},{2.45e-04,2.88e-05},},{{3.16e-05,9.37e-03},{8.00e-05,2.29e-05},{5.34e-05,1.72e-05},},{{8.86e-05,2.39e-03},{3.16e-04,5.39e-06},{1.41e-04,3.41e-06},},{{2.26e-02,3.59e-02},{5.31e-02,3.34e-03},{4.15e-03,1.67e-04},},},
{{{1.29e-05,3.47e-04},{3.18e-05,2.44e-06},{2.06e-05,7.79e-07},},{{1.60e-05,3.53e-04},{3.94e-05,2.69e-06},{2.30e-05,8.08e-07},},{{6.74e-06,3.33e-04},{1.66e-05,1.91e-06},{1.54e-05,7.13e-07},},{{5.88e-06,2.41e-04},{1.52e-05,2.52e-07},{1.14e-05,3.29e-07},},{{1.21e-04,4.68e-04},{2.94e-04,8.99e-06},{7.34e-05,1.37e-06},},},
{{{1.61e-06,1.08e-05},{3.97e-06,7.61e-08},{2.58e-06,2.44e-08},},{{1.71e-06,1.09e-05},{4.20e-06,7.80e-08},{2.65e-06,2.46e-08},},{{1.40e-06,1.07e-05},{3.45e-06,7.18e-08},{2.41e-06,2.38e-08},},{{1.91e-07,9.90e-06},{4.34e-07,4.34e-08},{1.25e-06,2.01e-08},},{{3.52e-06,1.17e-05},{8.63e-06,1.12e-07},{3.89e-06,2.83e-08},},},
},
{{{{7.37e-05,2.46e-02},{7.37e-05,1.25e-05},{1.00e-04,1.51e-05},},{{1.57e-04,2.64e-02},{1.20e-04,1.91e-05},{1.49e-04,1.78e-05},},{{2.19e-05,2.08e-02},{2.83e-05,1.02e-05},{4.77e-05,9.94e-06},},{{2.87e-05,5.30e-03},{1.84e-04,1.97e-06},{7.27e-05,1.38e-06},},{{1.72e-02,7.76e-02},{1.11e-02,7.21e-04},{2.96e-03,1.29e-04},},},
{{{9.21e-06,7.68e-04},{9.21e-06,3.84e-07},{1.22e-05,4.69e-07},},{{1.15e-05,7.82e-04},{1.04e-05,4.33e-07},{1.37e-05,4.89e-07},},{{4.81e-06,7.37e-04},{6.89e-06,2.82e-07},{9.09e-06,4.24e-07},},{{4.02e-06,5.34e-04},{4.97e-06,1.18e-07},{7.27e-06,1.76e-07},},{{8.83e-05,1.03e-03},{5.63e-05,1.69e-06},{4.54e-05,8.91e-07},},},
{{{1.15e-06,2.40e-05},{1.15e-06,1.20e-08},{1.52e-06,1.46e-08},},{{1.22e-06,2.41e-05},{1.19e-06,1.24e-08},{1.56e-06,1.48e-08},},{{1.00e-06,2.38e-05},{1.07e-06,1.12e-08},{1.42e-06,1.43e-08},},{{1.30e-07,2.19e-05},{6.31e-07,5.71e-09},{7.28e-07,1.18e-08},},{{2.52e-06,2.59e-05},{1.92e-06,1.90e-08},{2.32e-06,1.74e-08},},},
},
{{{{2.05e-05,4.02e-02},{2.05e-05,6.40e-06},{6.33e-03,1.79e-03},},{{4.43e-05,4.32e-02},{4.43e-05,9.59e-06},{1.18e-02,2.35e-03},},{{5.79e-06,3.40e-02},{5.79e-06,1.67e-06},{5.15e-03,8.12e-04},},{{2.64e-06,8.67e-03},{8.50e-05,7.46e-06},{6.89e-03,1.37e-04},},{{5.64e-03,1.25e-01},{5.50e-03,3.55e-04},{6.27e-01,3.28e-02},},},
{{{2.57e-06,1.26e-03},{2.57e-06,2.00e-07},{3.22e-03,2.31e-04},},{{3.21e-06,1.28e-03},{3.21e-06,2.23e-07},{3.84e-03,2.47e-04},},{{1.34e-06,1.21e-03},{1.34e-06,1.53e-07},{3.07e-03,1.95e-04},},{{1.03e-06,8.74e-04},{1.02e-06,2.06e-08},{3.29e-03,1.94e-05},},{{2.58e-05,1.69e-03},{2.58e-05,8.31e-07},{2.31e-02,6.08e-04},},},
{{{3.22e-07,3.93e-05},{3.22e-07,6.25e-09},{1.62e-03,2.90e-05},},{{3.41e-07,3.94e-05},{3.41e-07,6.43e-09},{1.69e-03,2.95e-05},},{{2.79e-07,3.89e-05},{2.79e-07,5.87e-09},{1.60e-03,2.78e-05},},{{3.79e-08,3.59e-05},{3.79e-08,3.38e-09},{1.46e-03,1.99e-05},},{{7.12e-07,4.23e-05},{7.12e-07,9.52e-09},{3.28e-03,3.82e-05},},},
},
{{{{2.65e-05,8.08e-06},{2.65e-05,4.24e-01},{2.76e-04,3.19e-03},},{{5.65e-05,1.20e-05},{5.65e-05,4.59e-01},{3.00e-04,3.34e-03},},{{6.94e-06,2.16e-06},{6.94e-06,3.52e-01},{2.24e-04,2.88e-03},},{{5.16e-06,1.06e-06},{5.16e-06,7.55e-02},{6.61e-05,1.26e-03},},{{6.89e-03,4.57e-04},{6.89e-03,1.47e+00},{8.86e-04,6.54e-03},},},
{{{3.22e-06,2.49e-07},{3.22e-06,2.65e-02},{3.45e-05,1.99e-04},},{{4.01e-06,2.77e-07},{4.01e-06,2.71e-02},{3.53e-05,2.02e-04},},{{1.69e-06,1.91e-07},{1.69e-06,2.53e-02},{3.28e-05,1.94e-04},},{{1.29e-06,2.46e-08},{1.29e-06,1.77e-02},{2.17e-05,1.59e-04},},{{3.20e-05,1.02e-06},{3.20e-05,3.67e-02},{4.82e-05,2.40e-04},},},
{{{4.00e-07,7.76e-09},{4.00e-07,1.66e-03},{4.32e-06,1.25e-05},},{{4.24e-07,7.97e-09},{4.24e-07,1.67e-03},{4.34e-06,1.25e-05},},{{3.47e-07,7.28e-09},{3.47e-07,1.64e-03},{4.26e-06,1.24e-05},},{{4.73e-08,4.21e-09},{4.73e-08,1.50e-03},{3.87e-06,1.18e-05},},{{8.84e-07,1.18e-08},{8.84e-07,1.80e-03},{4.71e-06,1.31e-05},},},
},
};
